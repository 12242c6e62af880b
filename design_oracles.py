ORACLE.update({
 'T01': 'a frame is the set of probe instants (grid points and points between them) it contains; intersection must be set intersection.',
 'T02': 'cell counting: time covered by lists of half-open cells before and after splitting, joining, grouping.',
 'T03': 'the triple (start, end, emptiness); text form compared after a round trip; order axioms on all triples.',
 'D01': 'the stored rows filtered by section and window in a list; chunks concatenated with the one permitted repetition.',
 'D02': 'a Python dictionary of row lists and metadata, after each step compared with the open store, the reopened file and a copy of '
        'the file taken at that instant (process death).',
 'D03': 'the same dictionary, plus the file\'s text for keys and headers.',
 'D04': 'tables and metadata of the source, key by key; all keys round-trip through their text.',
 'D05': 'script: the runs of readings of E03 found from the raw readings, per meter; description: sums, spans and counts over the hours of each meter; correlation, submetered share and dropout rate: the same questions asked of the meters (decided by E05, M04, S03).',
 'S01': 'maximal runs in the list of present readings.',
 'S02': 'exact sum over consecutive readings of value times the shorter of gap and longest counted gap.',
 'S03': 'count of readings against count of expected periods, weighted.',
 'S04': 'a list of (period, value); combination by exact sums; refusal on overlap.',
 'S05': 'the same request answered with an empty cache.',
 'E01': 'set of the table\'s columns filtered by quantity and type; documented order of preference for "best".',
 'E02': 'per-period lists of readings, mean or maximum, filled for at most the allowed number of periods.',
 'E03': 'runs at or above the threshold, joined and filtered, on a Python list.',
 'E04': 'counting each reading once; counting bins of the day with any activity.',
 'E05': 'direct evaluation of Pearson correlation, nearest-neighbour estimators in exact O(n^2) form and the discrete Fourier sum.',
 'N01': 'a recursive definition of "requirement satisfied by state"; a counter proves nothing was read from the source on refusal.',
 'M01': 'per-period sums of the single-meter oracle of E02; averages for quantities that do not add.',
 'M02': 'filtering the metadata as plain dictionaries.',
 'M03': 'the parent map in the metadata; object identity of meters per data set.',
 'M04': 'arithmetic on the energies of single meters.',
 'M05': 'Python sets of meter identifiers; energies and series computed from the tables.',
 'C01': 'the raw rows the check itself wrote, as a list of (UTC instant, values) per meter; the YAML metadata parsed by the check.',
 'A01': 'minimum over the full product of states; the levels present in the training data.',
 'A02': 'the arithmetic mean of all values; the set of files before and after, with removals recorded.',
 'A03': 'products over joint states; Viterbi optimum by enumerating every sequence of joint states.',
 'A04': 'a reference segmentation into runs; a direct simulation of the pairing rule; on/off patterns with known levels.',
 'A05': 'recording models: what they are given is compared with the rows of the tables; errors recomputed from the definitions.',
 'A06': 'minimum over the full product of states; every sequence of joint states (short) or an own Viterbi recursion (long); the gaps and sections as lists of slots, averaged per period; metadata compared item by item.',
 'L01': 'the formulas, in plain Python.',
 'L02': 'the formulas over dictionaries of instants per appliance.',
})
