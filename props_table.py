EX = 'explicit enumeration on the real code against a set/list reference model'
BFS = 'breadth-first search over operation histories of the real object, compared with a reference model in every state'

prop('T01', 'Time frame intersection is set intersection of instants',
     'A time frame denotes the instants from its start up to its end (the end itself only when marked inclusive), all '
     'time on a side without bound, all time when disabled, and no time when empty. Intersecting frames, testing them for '
     'overlap and slicing a table by a frame give exactly the instants common to them, whichever operand comes first and '
     'without changing the operands. A frame never has a start at or after its end, and a refused bound leaves it as it was.',
     ['inputs', 'histories'], 'all pairs and triples of bounded, unbounded, inclusive, disabled and empty frames in several '
     'zones; all histories of bound assignments', 'the tests try a dozen bounded frames, never inclusive ends, disabled or '
     'empty operands, or the symmetry of the operation',
     ['nilmtk/timeframe.py'], [('TimeFrame.intersection', 'nilmtk/timeframe.py'), ('TimeFrame.slice', 'nilmtk/timeframe.py'),
     ('start/end setters', 'nilmtk/timeframe.py'), ('check_for_overlap', 'nilmtk/timeframe.py')], EX,
     'complete within a grid of 6 (thorough 8) instants; real code, no model of it; set-of-probes oracle')

prop('T02', 'Splitting, joining and grouping time frames conserves time',
     'Splitting a frame yields adjoining pieces no longer than the limit that together cover exactly the frame, and is '
     'refused for a frame without both bounds. The union of two frames is the smallest frame covering both; merging a sorted '
     'list joins exactly the neighbours whose gap is within the allowance. Intersecting groups of frames, summing their '
     'uptime and dropping the short ones account for exactly the time the members cover.',
     ['inputs'], 'all bounded frames x thresholds, all pairs for union/adjacency, all sorted lists of up to four frames, all '
     'pairs of groups', 'the tests have one union, one merge and a few adjacency examples; split and groups are untested',
     ['nilmtk/timeframe.py', 'nilmtk/timeframegroup.py'], [('split, union, adjacent, merge_timeframes', 'nilmtk/timeframe.py'),
     ('TimeFrameGroup', 'nilmtk/timeframegroup.py')], EX, 'complete within grids of 5 to 8 instants, 14 thresholds, 6 gaps')

prop('T03', 'Time frames round-trip, compare and order consistently',
     'Writing a frame as a dictionary of text and reading it back gives the same bounds, time zone included, at every '
     'resolution. Frames are equal exactly when their bounds and emptiness agree, equal frames hash alike, and sorting orders '
     'them by start with unbounded starts first. Copies are equal and independent of the original.',
     ['inputs'], 'all frames over a grid in five zones at five resolutions; all pairs and triples', 'no test covers '
     'serialisation, hashing, ordering or copying', ['nilmtk/timeframe.py'],
     [('to_dict/from_dict', 'nilmtk/timeframe.py'), ('__eq__/__lt__/__hash__', 'nilmtk/timeframe.py')], EX,
     'complete within the grid; real code')

prop('D01', 'Loading from an HDF5 store delivers exactly the requested readings',
     'For every table, list of sections, window, column selection and chunk size, loading delivers, section by section and in '
     'time order, every stored reading inside both section and window and no other; only the last row of a chunk may be '
     'repeated as the first of the next. Chunk time frames cover their rows and tile the section, a section without data '
     'yields one empty frame, and the look-ahead of a chunk holds the rows stored right after it. An absent key raises KeyError.',
     ['inputs', 'configurations'], 'all sections x windows x chunk sizes x look-aheads over small tables with gaps',
     'the store tests (which do not run in this environment) try one table without gaps and four section lists',
     ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/timeframe.py'], [('HDFDataStore.load', 'nilmtk/datastore/hdfdatastore.py'),
     ('_timeframe_for_chunk', 'nilmtk/datastore/hdfdatastore.py'), ('query_terms', 'nilmtk/timeframe.py')], EX,
     'complete for tables of up to 7 rows; real HDF5 files')

prop('D02', 'An HDF5 store is a durable dictionary of tables and metadata',
     'After any history of writing, appending, removing, saving metadata, setting the window, closing and reopening, each '
     'table reads back as the rows last written followed by those appended, metadata reads back as last saved, and listings '
     'and time frames agree with that. A write that has returned is present in the file even if the process dies at once. A '
     'temporary store is isolated from others and leaves no file once closed.',
     ['histories', 'crash_points'], 'all histories up to depth 3 (thorough 4) over three keys, with process death after every '
     'acknowledged write', 'the tests never write through the store API twice, nor reopen, nor crash',
     ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/tmpdatastore.py'],
     [('put/append/remove/save_metadata and flush', 'nilmtk/datastore/hdfdatastore.py'),
      ('TmpDataStore.close', 'nilmtk/datastore/tmpdatastore.py')], BFS,
     'all histories to the depth bound; crash points at every acknowledged write')

prop('D03', 'A CSV store delivers exactly the requested readings',
     'A store of CSV files behaves like a dictionary of tables and metadata: what is written or appended is read back with the '
     'same columns, times and values. Loading by sections, window, columns and chunk size delivers every reading inside both '
     'section and window exactly once and no other, in time order. A section without data yields one empty frame, the look-ahead '
     'of a chunk holds the rows stored right after it, and an absent key raises KeyError.',
     ['inputs', 'histories'], 'all sections x windows x chunk sizes x look-aheads x column selections over small tables, and all '
     'histories of store operations up to depth 3 (thorough 4)', 'the store tests do not run here and cover one table',
     ['nilmtk/datastore/csvdatastore.py'], [('CSVDataStore.load', 'nilmtk/datastore/csvdatastore.py'),
     ('put/append/remove', 'nilmtk/datastore/csvdatastore.py'), ('metadata as YAML', 'nilmtk/datastore/csvdatastore.py')], BFS,
     'complete for tables of up to 7 rows and the history depth; real files')

prop('D04', 'Converting between store formats preserves tables and metadata',
     'Converting a data set from one store format to another, in any chain of formats, preserves every table inside the window '
     '(columns, times and values) and all metadata of the data set and its buildings. Meters without data in the window '
     'are still readable in the result. The text form of a storage key and the key itself determine each other.',
     ['inputs', 'configurations'], 'all layouts of buildings and meters x column sets x windows x chains of formats; all keys '
     'within small numbers', 'one conversion of one data set, not run here', ['nilmtk/datastore/datastore.py',
     'nilmtk/datastore/key.py'], [('convert_datastore', 'nilmtk/datastore/datastore.py'), ('Key', 'nilmtk/datastore/key.py'),
     ('join_key', 'nilmtk/datastore/datastore.py')], EX, 'complete for the listed layouts; real files')

prop('D05', 'Reports on a data set say what its meters say',
     'The activity script of a data set holds, for every building and every submeter with an appliance, in a table named after the '
     'building and the dominant appliance of the meter (/building<b>/<type, spaces as _>__<instance>), the start (True) and end '
     "(False) of each activation of that meter in order of time, and no table for other meters. Describing a building or a data set gives, in one "
     'column per building, what the building says of itself and what its meters give: the numbers of meters and site meters (disabled ones '
     'included), sample periods of mains and submeters, time frame and its length, uptime of the mains and its share of the time frame, energy of the '
     'mains per day of uptime, and on request the share of energy submetered, the correlation of submeters with mains, and the '
     'least, mean and largest dropout rate.',
     ['inputs', 'configurations'], 'all on/off patterns of a submeter x layouts of appliances x buildings x resolutions; all wirings of 1-2 site meters and '
     '0-3 submeters x patterns of hours x windows x disabled meters; data sets of up to three buildings', 'the tests call describe() and '
     'get_activity_script() without looking at what they say', ['nilmtk/dataset.py', 'nilmtk/building.py', 'nilmtk/metergroup.py'],
     [('get_activity_script, describe', 'nilmtk/dataset.py'), ('describe', 'nilmtk/building.py'), ('describe', 'nilmtk/metergroup.py')], EX,
     'complete for the listed layouts; in-memory store, real HDF5 scripts')

prop('S01', 'Good sections are the maximal runs of readings without a long gap',
     'The good sections of a meter are exactly the maximal runs of readings in which no two neighbours are further apart than '
     "the device's longest sample period, whatever the chunk size, section list or window. Uptime is the total length of them. "
     'Asking again, or for several sections together, gives the same answer.',
     ['inputs', 'configurations'], 'all subsets of 8 slots with readings, absent or missing values x gaps x chunk sizes x section '
     'lists x windows', 'tests use one table with two chunk sizes', ['nilmtk/stats/goodsections.py',
     'nilmtk/stats/goodsectionsresults.py', 'nilmtk/elecmeter.py'], [('GoodSections', 'nilmtk/stats/goodsections.py'),
     ('GoodSectionsResults.combined', 'nilmtk/stats/goodsectionsresults.py'), ('good_sections, uptime', 'nilmtk/elecmeter.py')], EX,
     'complete for 8 (thorough 9) slots')

prop('S02', 'Total energy is the integral of the clipped readings',
     'Total energy per AC type is taken from cumulative energy if measured, else from energy, else by integrating power, each '
     'reading held until the next one but never longer than the longest sample period, after clipping readings to the '
     'limits of the device. The result, in kWh, does not depend on how the data are cut into chunks, and over several '
     'sections it is the sum over each.',
     ['inputs', 'configurations'], 'all sets of readings on a small grid x column sets x gaps x clipping limits x chunk sizes x '
     'sections x windows', 'tests check one table of a constant load', ['nilmtk/stats/totalenergy.py',
     'nilmtk/stats/totalenergyresults.py', 'nilmtk/preprocessing/clip.py', 'nilmtk/utils.py'],
     [('TotalEnergy', 'nilmtk/stats/totalenergy.py'), ('Clip', 'nilmtk/preprocessing/clip.py'),
      ('timedelta64_to_secs', 'nilmtk/utils.py')], EX, 'complete for up to 6 (thorough 8) slots')

prop('S03', 'Dropout rate is the share of expected readings that are missing',
     'The dropout rate of a period is one minus the number of readings divided by the number expected at the sample period, '
     'never below zero or above one, and unknown with fewer than five readings. Over several periods it is the average weighted '
     'by number of readings; ignoring gaps, only good sections count.',
     ['inputs', 'configurations'], 'all sets of readings on 10 slots x sample periods x chunkings x section lists',
     'one table in the tests', ['nilmtk/stats/dropoutrate.py', 'nilmtk/stats/dropoutrateresults.py', 'nilmtk/elecmeter.py'],
     [('get_dropout_rate', 'nilmtk/stats/dropoutrate.py'), ('DropoutRateResults.combined', 'nilmtk/stats/dropoutrateresults.py'),
      ('ElecMeter.dropout_rate', 'nilmtk/elecmeter.py')], EX, 'complete for 10 (thorough 12) slots')

prop('S04', 'Statistics of separate periods combine exactly and refuse overlaps',
     'Results appended or merged period by period hold each period once in time order, and combine to the sum (energy), weighted '
     'average (dropout) or joined sections. A period overlapping a stored one, or results of another kind, are '
     'refused and change nothing. Writing results to the cache and reading them back restores them, time zone included, for any '
     'subset of periods.',
     ['inputs', 'histories'], 'all histories of up to three (thorough four) appended periods, all splits into merged results, all '
     'subsets read from the cache', 'no test of results at all', ['nilmtk/results.py', 'nilmtk/stats/totalenergyresults.py',
     'nilmtk/stats/dropoutrateresults.py', 'nilmtk/stats/goodsectionsresults.py'], [('Results', 'nilmtk/results.py'),
     ('check_for_overlap', 'nilmtk/results.py'), ('import_from_cache/export_to_cache', 'nilmtk/results.py')], BFS,
     'complete to the depth bound over 5 instants')

prop('S05', 'Cached statistics are never visible in the answers',
     'After any history of requests for energy, good sections, dropout or uptime with any sections, AC types, columns, chunk sizes '
     'and windows, on any of several meters, buildings and data sets, each answer equals the one computed from scratch. '
     'Clearing the cache changes no answer, except that the data are looked at anew.',
     ['histories'], 'all histories of two (thorough three) requests out of 26, on one and on several meters',
     'tests never ask for two statistics of the same meter with different arguments', ['nilmtk/elecmeter.py', 'nilmtk/results.py'],
     [('_get_stat_from_cache_or_compute', 'nilmtk/elecmeter.py'), ('get_cached_stats, clear_cache', 'nilmtk/elecmeter.py'),
      ('import_from_cache', 'nilmtk/results.py')], BFS, 'all histories to the depth bound, differential oracle: a fresh process state')

prop('E01', 'A meter delivers exactly the measurements asked for',
     'Loading by physical quantity, AC type or column list delivers exactly the matching measurements of the meter with the '
     "values stored, 'best' being active, then apparent, then reactive power. A request nothing matches, or an unknown "
     'quantity or AC type, is refused with an error. Single-measurement series come from the preferred AC type available.',
     ['inputs', 'configurations'], 'all meters with up to 4 (thorough 5) of 8 measurements x all combinations of requests',
     'the tests try three meters and six requests and do not run here', ['nilmtk/elecmeter.py', 'nilmtk/measurement.py'],
     [('load, _convert_physical_quantity_and_ac_type_to_cols', 'nilmtk/elecmeter.py'), ('select_best_ac_type', 'nilmtk/measurement.py')],
     EX, 'complete for the measurement palette; in-memory store conforming to D01')

prop('E02', 'Series of a meter are independent of chunking; resampling is exact',
     'All data, on/off states and lowest power of a meter are the same for every chunk size and follow the sections asked '
     'for. Resampling gives one value per period, the average (or requested summary) of its readings, empty periods '
     "filled forward only up to the device's longest sample period, the first of repeated time stamps counting. "
     "The caller's arguments are never changed.",
     ['inputs', 'configurations', 'histories'], 'all reading patterns on 7 slots x sections x chunk sizes x periods x devices',
     'the tests resample one table once', ['nilmtk/electric.py', 'nilmtk/elecmeter.py', 'nilmtk/utils.py'],
     [('load_series, power_series_all_data, when_on', 'nilmtk/electric.py'), ('safe_resample', 'nilmtk/utils.py'),
      ('ElecMeter.load', 'nilmtk/elecmeter.py')], EX, 'complete for 7 (thorough 8) slots')

prop('E03', 'Activations are the runs at or above the threshold, joined and filtered',
     'The activations of a meter are exactly the runs of readings at or above its on-power threshold that start and end inside '
     'the data, joined across pauses shorter than the shortest off time, without those shorter than the shortest on time, each with '
     'its border of readings. Threshold and durations come from the appliances: their own setting first, then their type, then '
     'the default. On/off states and switching times follow the same thresholds whatever the chunk size.',
     ['inputs', 'configurations'], 'all low/high/missing patterns of 8 (thorough 9) readings x pauses x durations x borders; all '
     'patterns on meters with 9 sets of appliances', 'the only test of activations counts them in one file', ['nilmtk/electric.py',
     'nilmtk/appliance.py'], [('get_activations', 'nilmtk/electric.py'), ('on_power_threshold, min_on_duration', 'nilmtk/electric.py'),
     ('switch_times', 'nilmtk/electric.py')], EX, 'complete for the pattern length; runs cut by a chunk boundary are not claimed')

prop('E04', 'Histograms count every reading once, in the right bin',
     'A histogram of a series read in chunks counts each reading inside the range exactly once, in the bin it belongs to, however '
     'the series is cut. The activity histogram counts, for each bin of the hour, day or week, the times with activity at or '
     'above the threshold, and refuses periods which are not a whole number of bins.',
     ['inputs', 'configurations'], 'all series of 5 (thorough 6) values x all ways of cutting them x bins and ranges; all on/off/absent '
     'patterns x periods x offsets', 'the tests check one histogram', ['nilmtk/stats/histogram.py', 'nilmtk/electric.py'],
     [('histogram_from_generator', 'nilmtk/stats/histogram.py'), ('activity_histogram', 'nilmtk/electric.py')], EX,
     'complete for the stated lengths')

prop('E05', 'Correlation, entropy, mutual information and spectrum match their definitions',
     'The correlation of two aligned meters is the Pearson correlation of the readings both have in the sections asked for, and is '
     'symmetric. Entropy and mutual information equal the nearest-neighbour estimates in the requested base for every choice of '
     'neighbour. The spectrum plotted is the discrete Fourier transform of the series.',
     ['inputs', 'configurations'], 'all pairs of short series over a few values with gaps and section lists; all orders of small '
     'sets of distinct values', 'one correlation in the tests; the others have none', ['nilmtk/electric.py'],
     [('correlation', 'nilmtk/electric.py'), ('entropy, mutual_information', 'nilmtk/electric.py'), ('plot_spectrum', 'nilmtk/electric.py')],
     'explicit enumeration on the real code against direct evaluation of the definitions', 'complete for the stated value sets; '
     'the method itself (enumeration) only reaches short series')

prop('N01', 'A pipeline runs only if every step\'s requirements are met upstream',
     'A sequence of processing steps runs exactly when each step finds what it requires in the device description or in what an '
     'earlier step provides; otherwise it is refused before any data are read. Steps change only what they announce: clipping '
     'limits each measurement to its own bounds, statistics leave the data as they are. The metadata of the source are never changed.',
     ['inputs', 'configurations'], 'all requirements x states within small nested dictionaries; all sequences of up to 3 (thorough 4) '
     'steps out of 8 x device descriptions x chunkings', 'tests check two requirements and one clip', ['nilmtk/node.py',
     'nilmtk/preprocessing/clip.py', 'nilmtk/preprocessing/apply.py', 'nilmtk/stats/totalenergy.py'],
     [('Node.check_requirements, find_unsatisfied_requirements', 'nilmtk/node.py'), ('dry_run_metadata, get_metadata', 'nilmtk/node.py'),
      ('Clip', 'nilmtk/preprocessing/clip.py')], EX, 'complete to the depth bound')

prop('M01', 'A group of meters loads as the sum of its meters, period by period',
     'Loading a group gives, for every sample period of the sections asked for and no other, the sum of the resampled readings of '
     'its meters, and the average for voltage, frequency and the like. A period is missing only where no meter has a reading. '
     'The answer is the same for every chunk size, nesting of groups, order of meters and daylight saving time change, and by default '
     'covers the time frame of the data inside the window.',
     ['inputs', 'configurations'], 'all patterns of readings of two meters x periods x sections; all combinations of meters with different '
     'measurements x requests; all nestings of up to 4 meters; windows on real files', 'the tests (which do not run here) sum one '
     'data set', ['nilmtk/metergroup.py', 'nilmtk/measurement.py'], [('MeterGroup.load, combine_chunks_from_generators',
     'nilmtk/metergroup.py'), ('dataframe_of_meters', 'nilmtk/metergroup.py'), ('get_timeframe', 'nilmtk/metergroup.py')], EX,
     'complete for the stated patterns; resampling of a single meter is E02')

prop('M02', 'Looking up and selecting meters finds exactly those that match',
     'A lookup in a group by meter instance, identifier, appliance type and instance, or appliance metadata returns the one meter '
     '(or nested group) it describes, raises KeyError when there is none and an error when there are several. Selecting by meter '
     'or appliance metadata returns every matching meter once, in order, type names by synonyms too; a meter or appliance which lacks a criterion does not match and '
     'never hides others. Grouping by type, room or category, and labels, follow the (dominant) appliances. The group is never changed.',
     ['inputs', 'configurations'], 'all ways of connecting up to 4 appliances to 3 submeters or a pair of them x all lookup forms and '
     'selections by up to two criteria or a list of values', 'the tests look up a dozen keys in one group', ['nilmtk/metergroup.py',
     'nilmtk/elecmeter.py', 'nilmtk/appliance.py', 'nilmtk/electric.py'], [('MeterGroup.__getitem__, select, groupby', 'nilmtk/metergroup.py'),
     ('matches', 'nilmtk/elecmeter.py'), ('matches, categories, label', 'nilmtk/appliance.py')], EX, 'complete for the stated wirings')

prop('M03', 'The wiring of a building is the tree its metadata describe, inside its own data set',
     'Each meter is upstream of exactly the meters which name it, 0 standing for the mains in use; the wiring graph, the meters directly '
     'below the mains, mains and submeters follow, whatever the order of the metadata. Each appliance is attached to exactly its meters, '
     'several meters of one appliance forming a nested group. Swapping the mains for the disabled ones and back restores everything. '
     'Meters, devices, windows and data of data sets open at the same time never mix, even if names are equal.',
     ['inputs', 'histories', 'configurations'], 'all trees of up to 3 (thorough 5) submeters x orders x one or two mains; all subsets of '
     'disabled mains; placements of appliances; up to three data sets opened in turn', 'tests check one wiring graph of one data set',
     ['nilmtk/elecmeter.py', 'nilmtk/metergroup.py', 'nilmtk/dataset.py', 'nilmtk/building.py'],
     [('upstream_meter', 'nilmtk/elecmeter.py'), ('import_metadata, wiring_graph, use_alternative_mains', 'nilmtk/metergroup.py'),
      ('import_metadata, set_window', 'nilmtk/dataset.py')], EX, 'complete for the stated trees')

prop('M04', "Energy accounting of groups adds up",
     'The total energy of a group is the sum of its meters per AC type, meters without data or without that AC type counting nothing. '
     'Energy per meter and per period, fractions, shares of the upstream meter and of the mains, the remainder, the ranking of the top '
     'meters (with the others grouped), averages, uptime and dropout rates of a group all follow from the energies of its meters in the '
     'sections they name. Splitting for training divides the good time of the mains by the fraction asked for.',
     ['inputs', 'configurations'], 'all combinations of patterns of readings, AC types, nesting and windows of a building of five meters x '
     'subgroups, section lists, periods, ranking lengths and splits', 'the tests check one total and one proportion',
     ['nilmtk/metergroup.py', 'nilmtk/electric.py', 'nilmtk/results.py'], [('total_energy, energy_per_meter, fraction_per_meter, select_top_k, '
      'train_test_split', 'nilmtk/metergroup.py'), ('proportion_of_upstream, proportion_of_energy, average_energy_per_period',
      'nilmtk/electric.py'), ('unify', 'nilmtk/results.py')], EX, 'complete for the stated patterns; energies of one meter are S02 and S05')

prop('M05', 'Groups are what their members are, whatever the order and nesting',
     'Groups of the same meters are equal and interchangeable as keys, in any order; the union of two groups has each meter of either once. '
     'The identifier of a group finds the same meters and nested groups again, in the same group or in another data set, and pairs the '
     'submeters of two groups by identity; absent meters are refused. Instances, building, data set, sample period and measurements of a '
     'group follow from its members. Statistics per meter and per pair of meters are those of the meters named in their labels, '
     'simultaneous switches count the submeters switching at each instant, and the sum compared with the mains is that of the meters '
     'directly below it.',
     ['inputs', 'configurations'], 'all pairs of ordered lists of members of two data sets; all lists of up to 3 identifiers in every form; all '
     'orders and nestings for pairwise statistics; all patterns of readings of 3 submeters', 'the tests compare two groups and build two from '
     'lists', ['nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/hashable.py'], [('__eq__, __hash__, union, from_list, '
     'from_other_metergroup', 'nilmtk/metergroup.py'), ('pairwise, call_method_on_all_meters, simultaneous_switches', 'nilmtk/metergroup.py'),
     ('replace_dataset, iterate_through_submeters_of_two_metergroups', 'nilmtk/metergroup.py')], EX, 'complete for the stated members')

prop('A01', 'Combinatorial optimisation assigns the combination of states closest to the mains',
     'Combinatorial optimisation predicts, at every instant of every piece of mains, a state of each appliance so that their sum is as '
     'close to the mains as any combination of learnt states can be, with the times and time zone of the mains and one column per '
     'appliance. Learnt states are the levels at which the appliance draws power, including off, however the readings are cut; an '
     'appliance already learnt keeps its states when training goes on. The nearest-value search behind it is exact.',
     ['inputs', 'histories'], 'all models of up to 3 (thorough 4) appliances x mains readings x cuts; all pairs of levels and counts; all '
     'histories of training and predicting', 'no test covers it here', ['nilmtk/disaggregate/combinatorial_optimisation.py',
     'nilmtk/feature_detectors/cluster.py', 'nilmtk/utils.py'], [('CO.partial_fit, disaggregate_chunk',
     'nilmtk/disaggregate/combinatorial_optimisation.py'), ('cluster', 'nilmtk/feature_detectors/cluster.py'), ('find_nearest', 'nilmtk/utils.py')],
     EX, 'complete for the stated models; the clustering inside is scikit-learn on well separated levels')

prop('A02', 'The mean model predicts the mean of every reading it was trained on',
     'The mean model predicts, for each appliance and every instant of the mains, the mean of all readings present in its training data, '
     'missing ones left out, no matter how the data were divided into pieces or calls or whether the model was saved and loaded in '
     'between. Clearing checkpoints removes exactly the files of the given prefix ending in .h5 and nothing without a prefix.',
     ['inputs', 'histories'], 'all sequences of up to 3 (thorough 4) pieces x ways of handing over; all histories of training and reloading; all '
     'sets of checkpoint files', 'no test covers it here', ['nilmtk/disaggregate/mean.py', 'nilmtk/disaggregate/disaggregator.py'],
     [('Mean.partial_fit, disaggregate_chunk, save_model, load_model', 'nilmtk/disaggregate/mean.py'),
      ('clear_model_checkpoints', 'nilmtk/disaggregate/disaggregator.py')], BFS, 'all histories to the depth bound')

prop('A03', 'The factorial hidden Markov model is the product of its chains and decodes the likeliest states',
     'The joint model has one state per combination of the appliances\' states, whose probabilities are the products and whose mean is the '
     'sum of theirs, and decoding inverts it. The predicted powers of a piece of mains are those of a sequence of joint states than which '
     'none is likelier, with the times of the mains. Sorting a chain by power permutes its parameters consistently, ties included. '
     'Training learns a chain with the appliance\'s levels.',
     ['inputs'], 'all sequences of joint states of two appliances over short mains; all joint models from a palette of chains; all '
     'permutations and ties of up to 4 states', 'no test covers it here', ['nilmtk/disaggregate/fhmm_exact.py'],
     [('sort_learnt_parameters, create_combined_hmm, decode_hmm', 'nilmtk/disaggregate/fhmm_exact.py'),
      ('FHMMExact.partial_fit, disaggregate_chunk', 'nilmtk/disaggregate/fhmm_exact.py')], EX,
     'complete for the stated chains: the optimum is found by enumerating every state sequence; fitting one chain is hmmlearn')

prop('A04', "Hart's algorithm finds edges, pairs them and predicts levels between them",
     'Steady states are the runs of readings without a change above the threshold, with their average levels, and edges the differences '
     'between neighbouring levels above the noise, at the time of change. Each falling edge is paired with the nearest earlier rising edge '
     'of matching size still in the buffer, and no edge is used twice. A trained model predicts each level from a rising to a falling edge '
     'nearest to it, for every piece of mains on its own, and predicts the same after export and import.',
     ['inputs', 'histories'], 'all short series over a few levels x thresholds; all sequences of up to 5 (thorough 6) edges x buffer sizes; all '
     'on/off patterns of two appliances', 'no test covers it here', ['nilmtk/disaggregate/hart_85.py',
     'nilmtk/feature_detectors/steady_states.py'], [('find_steady_states', 'nilmtk/feature_detectors/steady_states.py'),
     ('PairBuffer', 'nilmtk/disaggregate/hart_85.py'), ('Hart85.partial_fit, disaggregate_chunk, export_model', 'nilmtk/disaggregate/hart_85.py')],
     BFS, 'complete for the stated series and edges')

prop('A06', 'The legacy disaggregators predict by what they learnt, and write it down',
     'Combinatorial optimisation learns, per submeter, off and the levels above 10 W (rounded to 1 W) its readings cluster at: as many as asked for, '
     'else at most two, one in groups of more than 12 meters, none from fewer than 20 such readings; it refuses to be trained again or to predict untrained. For any mains it '
     'predicts, for each reading, a learnt state per meter such that no other choice comes nearer to the reading. The factorial hidden Markov model '
     'is the product of the chains of its meters, each sorted by level without losing a state, and decodes a likeliest sequence. '
     'Disaggregating mains writes a data set named after the model: the mains as meter 1, and each trained meter under its own number, with its '
     'appliances and name, wired to the mains, with predictions at exactly the readings of the mains at the period asked for (60 s by default), '
     'in the sections asked for (by default the good ones) that give at least the shortest number of readings; the time frame covers them and the source is unchanged. '
     'A model exported to a file and imported elsewhere predicts the same, and exporting, even in vain, leaves the model as it was.',
     ['inputs', 'configurations'], 'all sets of states x mains values; all permutations and ties of chains and all sequences of joint states; all gap patterns x '
     'sections x periods x shortest lengths x layouts of appliances; both models through files', 'the tests of these (which need missing files) try one data set',
     ['nilmtk/legacy/disaggregate/combinatorial_optimisation.py', 'nilmtk/legacy/disaggregate/fhmm_exact.py', 'nilmtk/legacy/disaggregate/disaggregator.py',
      'nilmtk/feature_detectors/cluster.py'],
     [('CombinatorialOptimisation', 'nilmtk/legacy/disaggregate/combinatorial_optimisation.py'), ('FHMM', 'nilmtk/legacy/disaggregate/fhmm_exact.py'),
      ('_save_metadata_for_disaggregation', 'nilmtk/legacy/disaggregate/disaggregator.py'), ('cluster', 'nilmtk/feature_detectors/cluster.py'),
      ('find_nearest', 'nilmtk/utils.py')], EX,
     'complete for the listed state sets, layouts and gaps; real HDF5 output')

prop('L01', 'Loss functions equal their definitions',
     'Mean absolute error, root mean square error, F1 score with a threshold of 10 W, relative error, R2, normalised disaggregation error and '
     'normalised error in assigned power equal their definitions for every pair of series. The RMS error per appliance compares each '
     'appliance with its own prediction over the instants where both have a reading, leaves out those not predicted, and labels meters '
     'by their appliances, whatever the order of the columns.',
     ['inputs'], 'all pairs of series of up to 3 (thorough 4) values; all sets of up to 3 appliances x ways of being present in the predictions',
     'no test covers it', ['nilmtk/losses.py', 'nilmtk/utils.py'], [('mae, rmse, f1score, relative_error, r2score, nde, nep', 'nilmtk/losses.py'),
     ('compute_rmse', 'nilmtk/utils.py')], EX, 'complete for the stated values')

prop('L02', 'Metrics compare each predicted appliance with its own measurement over the instants both cover',
     'The error in assigned energy, fraction of energy assigned correctly, mean normalised error, RMS error and F1 score of two data sets '
     'equal their definitions for every appliance, matched by identity rather than by position or order. Aligning two meters delivers, '
     'for every good section of the first, each instant at which both have a reading with the values of both.',
     ['inputs', 'configurations'], 'all pairs of subsets of 5 (thorough 6) instants; all pairs of series over 3 levels; one to three appliances, some '
     'on two meters, in several orders', 'the tests (which do not run here) have one data set with equal halves', ['nilmtk/metrics.py',
     'nilmtk/electric.py'], [('error_in_assigned_energy, fraction_energy_assigned_correctly, mean_normalized_error_power, rms_error_power, '
     'f1_score', 'nilmtk/metrics.py'), ('align_two_meters', 'nilmtk/electric.py')], EX, 'complete for the stated patterns; loading one meter is S01, E02')

prop('A05', 'The experiment API trains on and compares exactly the common readings of each building\'s own window',
     'An experiment hands each model, for every training data set and building in order, the readings of the mains and of each appliance '
     'inside that building\'s window at the sampling rate asked for, restricted to the instants where all of them have a reading (or as they '
     'are, if missing ones are kept). With artificial aggregate the mains are the sum of the appliances. Testing hands over each test '
     'building in the same way; every metric compares each appliance\'s prediction with its own readings of that building, for each model, '
     'under a key naming data set, building, chunk and metric. Chunk by chunk, the pieces add up to the same readings, once per epoch.',
     ['inputs', 'configurations'], 'all combinations of patterns of readings of mains and two appliances x windows x periods; lists of up to '
     'three buildings of two data sets; chunk sizes; recording models and real ones', 'no test covers it', ['nilmtk/api.py'],
     [('train_jointly, train_chunk_wise', 'nilmtk/api.py'), ('test_jointly, test_chunk_wise', 'nilmtk/api.py'), ('dropna', 'nilmtk/api.py'),
      ('call_predict, predict, compute_loss', 'nilmtk/api.py')], EX, 'complete for the stated patterns; real HDF5 files')

prop('C01', 'Converted data sets hold every raw reading at its time under its meter',
     'The converters of REDD, UK-DALE, REFIT, AMPds, iAWE, COMBED, DRED, HIPE, IDEAL, GREEND, ECO and DEDDIAG write one table for each raw '
     'channel they document, under the building and meter number the metadata use, with the documented physical quantity and AC type, in '
     'watts, in time order and in the time zone of the data set, whatever the order of the raw files and of their rows. Each raw reading '
     'appears at its instant with its value; only readings marked missing and, where asked for, later ones of the same time are left out '
     '(GREEND keeps one row per time; iAWE averages minutes of its period and fills the rest). Data set, buildings, meters and devices of '
     'the metadata are stored with them, and the file is complete when the converter returns, as HDF5 or as text where offered.',
     ['inputs', 'configurations'], 'all orders with ties of 1-3 raw readings; every kind of channel; sets of houses, files, columns and '
     'missing readings', 'no test runs a converter on readings with ties, gaps or out of order; only REDD and CSV are tested at all',
     ['nilmtk/dataset_converters'], [('convert_redd, _convert, _load_csv', 'nilmtk/dataset_converters/redd/convert_redd.py'),
     ('convert_ukdale', 'nilmtk/dataset_converters/ukdale/convert_ukdale.py'), ('convert_refit', 'nilmtk/dataset_converters/refit/convert_refit.py'),
     ('convert_eco', 'nilmtk/dataset_converters/eco/convert_eco.py'), ('convert_greend', 'nilmtk/dataset_converters/greend/convert_greend.py'),
     ('convert_*', 'nilmtk/dataset_converters')], EX, 'complete for the stated raw files; nilm_metadata and deddiag_loader are stand-ins')
