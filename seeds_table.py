# One entry per planted change: seed(id, property, needs, what_it_breaks, [(file, old, new)], demonstration)

seed('t01-refused-start-kept', 'T01', 'an assignment of a start after the end, refused with an error that the caller handles',
     'the refused start stays in the frame, which then starts after its end',
     [('nilmtk/timeframe.py', "        if self.end and new_start >= self.end:\n            raise ValueError(\"start date must be before end date\")\n        else:\n            self._start = new_start",
       "        self._start = new_start\n        if self.end and new_start >= self.end:\n            raise ValueError(\"start date must be before end date\")")],
     '''
f = tfr(0, 10)
try:
    f.start = at(20)
except ValueError:
    pass
check(f.start == at(0), 'a refused start was kept', f)
''')

seed('t02-group-intersection-sweep', 'T02', 'one long frame in the second group overlapping two frames of the first',
     'the intersection of groups sweeps the second group once, so a frame of it meets only the first frame it overlaps',
     [('nilmtk/timeframegroup.py', "            for other_timeframe in other:\n                intersect = self_timeframe.intersection(other_timeframe)\n                if not intersect.empty:\n                    new_tfg.append(intersect)\n",
       "            for i in range(start_i, len(other)):\n                intersect = self_timeframe.intersection(other[i])\n                if not intersect.empty:\n                    new_tfg.append(intersect)\n                    # everything before `i` is in the past\n                    start_i = i + 1\n"),
      ('nilmtk/timeframegroup.py', "        new_tfg = TimeFrameGroup()\n        for self_timeframe in self:\n", "        new_tfg = TimeFrameGroup()\n        start_i = 0\n        for self_timeframe in self:\n")],
     '''
from nilmtk.timeframegroup import TimeFrameGroup
a = TimeFrameGroup([tfr(0, 4), tfr(6, 9)])
b = TimeFrameGroup([tfr(2, 8)])
check([(t.start, t.end) for t in a.intersection(b)] == [(at(2), at(4)), (at(6), at(8))], a.intersection(b))
''')

seed('t03-dict-microseconds', 'T03', 'an end with nanosecond resolution',
     'the text form of the end is rounded up to microseconds, so frames do not round-trip',
     [('nilmtk/timeframe.py', "            dct['end'] = self.end.isoformat()", "            dct['end'] = self.end.ceil('us').isoformat()")],
     '''
f = TimeFrame(at(0), pd.Timestamp('2013-05-01 12:00:03.000000007', tz='UTC'))
check(TimeFrame.from_dict(f.to_dict()) == f, f.to_dict())
''')

seed('d01-window-once', 'D01', 'two sections, the first reaching outside the window',
     'the window is narrowed by each section in turn, so later sections of one request lose readings',
     [('nilmtk/datastore/hdfdatastore.py', "        for section in sections:\n            if verbose:\n                print(\"   \", section)\n            window_intersect = self.window.intersection(section)\n",
       "        window_end = None\n        for section in sections:\n            if verbose:\n                print(\"   \", section)\n            window_intersect = self.window.intersection(section)\n            if window_end is not None and window_intersect.start == window_end:\n                # the previous section delivered this row already\n                window_intersect = self.window.intersection(\n                    TimeFrame(window_end + pd.Timedelta(1, 's'), section.end))\n            window_end = window_intersect.end\n")],
     '''
st = HDFDataStore(os.path.join(SCRATCH, 'a.h5'), 'w')
st.put('/building1/elec/meter1', frame(range(8), range(8)))
got = [list(c.iloc[:, 0]) for c in st.load('/building1/elec/meter1', sections=[tfr(0, 3), tfr(3, 6)])]
check(got == [[0, 1, 2], [3, 4, 5]], got)
''')

seed('d02-metadata-unflushed', 'D02', 'the process dying right after metadata was saved',
     'saved metadata are no longer flushed, so they are lost in a crash',
     [('nilmtk/datastore/hdfdatastore.py', "        node._v_attrs.metadata = metadata\n        self.store.flush()\n", "        node._v_attrs.metadata = metadata\n")],
     '''
p = os.path.join(SCRATCH, 'a.h5')
st = HDFDataStore(p, 'w')
st.put('/building1/elec/meter1', frame(range(4), range(4)))
st.close()
pid = os.fork()
if pid == 0:
    st = HDFDataStore(p, 'a')
    st.save_metadata('/building1', {'instance': 1})
    os._exit(0)
os.waitpid(pid, 0)
try:
    st = HDFDataStore(p, 'r')
    md = st.load_metadata('/building1')
except Exception as e:
    check(False, repr(e))
check(md == {'instance': 1}, md)
''')

seed('s01-lookahead-gap', 'S01', 'a chunk ending inside a run, the next reading exactly the longest allowed gap away',
     'a run is split at a chunk boundary when the next reading is exactly the longest sample period later',
     [('nilmtk/stats/goodsections.py', "        if not look_ahead_valid or look_ahead_gap > max_sample_period:", "        if not look_ahead_valid or look_ahead_gap >= max_sample_period:")],
     '''
m = dataset({1: (frame([0, 1, 3, 5, 7], [1] * 5), {'site_meter': True})}).buildings[1].elec[1]
a = [(t.start, t.end) for t in m.good_sections(chunksize=2)]
check(a == [(at(0), at(7))], a)
''')

seed('s02-missing-held', 'S02', 'a missing value in the middle of a power series',
     'readings before a missing value are held only up to the missing value instead of up to the next reading',
     [('nilmtk/stats/totalenergy.py', "    series = series.dropna()\n    timedelta = np.diff(series.index.values)", "    timedelta = np.diff(series.index.values)"),
      ('nilmtk/stats/totalenergy.py', "    joules = (timedelta_secs * series.values[:-1]).sum()", "    joules = np.nansum(timedelta_secs * series.values[:-1])")],
     '''
m = dataset({1: (frame([0, 1, 2, 3], [3600, NAN, 3600, 3600]), {'site_meter': True})}).buildings[1].elec[1]
e = m.total_energy()['active']
check(abs(e - 0.003) < 1e-9, e)
''')

seed('s03-round-down', 'S03', 'a span that is not a multiple of the sample period',
     'the number of expected readings is rounded down instead of to the nearest',
     [('nilmtk/stats/dropoutrate.py', "round(duration.total_seconds() / sample_period) + 1", "duration.total_seconds() // sample_period + 1")],
     '''
m = dataset({1: (frame([0, 3, 6, 9, 14], [1] * 5), {'site_meter': True})}, dev=device(sample_period=3, max_sample_period=9)).buildings[1].elec[1]
d = m.dropout_rate(ignore_gaps=False)
check(abs(d - (1 - 5 / 6.)) < 1e-9, d)
''')

seed('s04-overlap-last-only', 'S04', 'results appended out of time order',
     'only the latest stored period is compared with the appended one, so an overlap with an earlier period is accepted and counted twice',
     [('nilmtk/results.py', "        for index, series in self._data.iterrows():\n            tf = TimeFrame(index, series['end'])\n            tf.check_for_overlap(timeframe)\n",
       "        for index, series in self._data.iloc[-1:].iterrows():\n            tf = TimeFrame(index, series['end'])\n            tf.check_for_overlap(timeframe)\n")],
     '''
from nilmtk.stats.totalenergyresults import TotalEnergyResults
r = TotalEnergyResults()
r.append(tfr(0, 4), {'active': 1.})
r.append(tfr(10, 14), {'active': 1.})
try:
    r.append(tfr(2, 6), {'active': 1.})
except ValueError:
    sys.exit(0)
check(False, 'overlap accepted')
''')

seed('s05-longer-section-reused', 'S05', 'energy asked for a long section, then for a shorter one with the same start',
     'a cached result for a longer section is returned for a shorter one',
     [('nilmtk/results.py', "            if row['end'] == section.end:\n", "            if row['end'] >= section.end:\n                row['end'] = section.end\n")],
     '''
m = dataset({1: (frame(range(10), [3600] * 10), {'site_meter': True})}).buildings[1].elec[1]
m.total_energy(sections=[tfr(0, 8)])
e = m.total_energy(sections=[tfr(0, 4)])['active']
check(abs(e - 0.003) < 1e-9, e)
''')

seed('e01-best-mixed-list', 'E01', "'best' for a list of quantities measured with different AC types",
     "the AC type found best for the first quantity is used for all of them",
     [('nilmtk/elecmeter.py', "            columns = set()\n            for pq in physical_quantity:\n                best = self._get_columns_with_best_ac_type(pq)\n                if best:\n                    columns.update(best)\n            return list(columns)",
       "            columns = set()\n            best_type = None\n            for pq in physical_quantity:\n                best = self._get_columns_with_best_ac_type(pq)\n                if best and best_type in self.available_ac_types(pq):\n                    best = [(pq, best_type)]\n                if best:\n                    best_type = best[0][1]\n                    columns.update(best)\n            return list(columns)")],
     '''
cols = (('power', 'apparent'), ('energy', 'active'), ('energy', 'apparent'))
m = dataset({1: (frame([0, 1], [[1, 2, 3], [4, 5, 6]], cols), {'site_meter': True})}, dev=device(cols)).buildings[1].elec[1]
got = set(next(m.load(physical_quantity=['power', 'energy'], ac_type='best')).columns)
check(got == {('power', 'apparent'), ('energy', 'active')}, got)
''')

seed('e02-limit-from-period', 'E02', 'resampling to a period between the sample period and the longest gap that does not divide it',
     'the number of periods filled is rounded down, leaving short gaps unfilled',
     [('nilmtk/elecmeter.py', "                    np.ceil(self.device['max_sample_period'] / sample_period))", "                    np.maximum(1, self.device['max_sample_period'] // sample_period))")],
     '''
m = dataset({1: (frame([0, 2, 9], [10, 20, 30]), {'site_meter': True})}, dev=device(sample_period=1, max_sample_period=3)).buildings[1].elec[1]
v = list(next(m.power_series(sample_period=2)))
check([x for x in v if x == x][:4] == [10, 20, 20, 20], v)
''')

seed('e03-type-threshold-ignored', 'E03', 'an appliance whose metadata give a nominal consumption without an on-power',
     'the default threshold is used instead of that of the type',
     [('nilmtk/appliance.py', "            return self.metadata['nominal_consumption']['on_power']", "            return self.metadata['nominal_consumption'].get('on_power', DEFAULT_ON_POWER_THRESHOLD)")],
     '''
def threshold(**md):
    m = dataset({1: (frame([0, 1], [1, 2]), {'site_meter': True})}, [dict({'type': 'fridge', 'instance': 1, 'meters': [1]}, **md)]).buildings[1].elec[1]
    return m.appliances[0].on_power_threshold()
check(threshold(nominal_consumption={'standby': 3}) == threshold(), threshold())
''')

seed('e03-pause-of-exactly-the-limit', 'E03', 'a pause exactly as long as the shortest off time',
     'pauses as long as the shortest off time are joined too',
     [('nilmtk/electric.py', "off_durations >= min_off_duration)[0]", "off_durations > min_off_duration)[0]")],
     '''
from nilmtk.electric import get_activations
v = [0, 100, 100, 0, 0, 100, 0]
s = frame(range(7), v).iloc[:, 0]
n = len(get_activations(s, min_off_duration=2, min_on_duration=0, border=0, on_power_threshold=50))
check(n == 2, n)
''')

seed('e04-activity-mean', 'E04', 'a bin whose average is below the threshold but whose peak is above it',
     'a bin counts as active only when its average reaches the threshold',
     [('nilmtk/electric.py', "kwargs['resample_kwargs'] = {'how': 'max'}", "kwargs['resample_kwargs'] = {'how': 'mean'}")],
     '''
offs = list(range(0, 8 * 3600, 600))
v = [0] * len(offs)
v[9] = 100
m = dataset({1: (frame(offs, v), {'site_meter': True})}, [{'type': 'fridge', 'instance': 1, 'meters': [1]}], dev=device(sample_period=600, max_sample_period=1200)).buildings[1].elec[1]
h = m.activity_histogram(period='D', bin_duration='h', on_power_threshold=60)
check(h.sum() == 1, h)
''')

seed('e05-split-base', 'E05', 'mutual information in another base than 2',
     'the estimate of a series long enough to be split is always given in bits',
     [('nilmtk/electric.py', "                    out.append(kdtree_mi(x, y, k, base))\n", "                    out.append(kdtree_mi(x, y, k, 2))\n")],
     '''
import nilmtk.electric as el
el.MAX_SIZE_ENTROPY = 40
r = np.random.RandomState(0)
n = 100
x, y = r.rand(n), r.rand(n)
e = dataset({1: (frame(range(n), x), {'site_meter': True}), 2: (frame(range(n), x + .1 * y), {'submeter_of': 1})}).buildings[1].elec
a, b = e[1].mutual_information(e[2], base=2), e[1].mutual_information(e[2], base=4)
check(abs(a - 2 * b) < 1e-3, a, b)
''')

seed('m02-identifier-subset', 'M02', 'a group whose nested groups share meters',
     'a nested group containing the meters of the identifier is found instead of the one which is exactly them',
     [('nilmtk/metergroup.py', "                if (set(group.identifier.meters) == key_meters):", "                if (set(group.identifier.meters) >= key_meters):")],
     '''
from nilmtk.metergroup import MeterGroup
e = dataset({i: (frame([0, 1], [1, 2]), {'site_meter': True} if i == 1 else {'submeter_of': 1}) for i in (1, 2, 3, 4)}).buildings[1].elec
big, small = MeterGroup([e[2], e[3], e[4]]), MeterGroup([e[2], e[3]])
g = MeterGroup([e[1], big, small])
check(g[small.identifier] is small, g[small.identifier])
''')

seed('m03-swap-loses-window', 'M03', 'two enabled mains swapped for the disabled ones',
     'only meters at positions not shifted by removing an earlier one are moved',
     [('nilmtk/metergroup.py', "        present_mains = [m for m in self.meters if m.is_site_meter()]\n", "        present_mains = (m for m in self.meters if m.is_site_meter())\n")],
     '''
from nilmtk import DataSet
d = dataset({i: (frame([0, 1], [1, 2]), md) for i, md in {1: {'site_meter': True}, 2: {'site_meter': True}, 3: {'site_meter': True, 'disabled': True}, 4: {'submeter_of': 0}}.items()})
e = d.buildings[1].elec
e.use_alternative_mains()
check(sorted(m.instance() for m in e.meters) == [3, 4], e)
check(sorted(m.instance() for m in e.disabled_meters) == [1, 2], e.disabled_meters)
''')

seed('m04-periods-of-first-meter', 'M04', 'the energy per period of several meters asked for together',
     'shares use the sum over AC types of each meter, so a meter measured with two types counts twice',
     [('nilmtk/metergroup.py', "        energy_per_meter = self.energy_per_meter(**load_kwargs).max()\n", "        energy_per_meter = self.energy_per_meter(**load_kwargs).sum()\n")],
     '''
A, P = ('power', 'active'), ('power', 'apparent')
e = dataset({1: (frame([0, 1, 2], [[3600, 7200]] * 3, (A, P)), {'device_model': 'both', 'site_meter': True}), 2: (frame([0, 1, 2], [3600] * 3, (A,)), {'device_model': 'one', 'submeter_of': 1})},
            devices={'both': dict(device((A, P)), model='both'), 'one': dict(device((A,)), model='one')}).buildings[1].elec
f = e.fraction_per_meter(ac_type=None)
check(abs(f.iloc[0] - 2 / 3.) < 1e-9, f)
''')

seed('m05-three-at-once', 'M05', 'exactly two submeters switching at the same instant',
     'instants at which two submeters switch are left out',
     [('nilmtk/metergroup.py', "sim_switches[sim_switches >= 2]", "sim_switches[sim_switches > 2]")],
     '''
e = dataset({1: (frame(range(6), [100] * 6), {'site_meter': True}), 2: (frame(range(6), [0, 0, 60, 60, 60, 60]), {'submeter_of': 1}), 3: (frame(range(6), [0, 0, 70, 70, 0, 0]), {'submeter_of': 1})}).buildings[1].elec
s = e.simultaneous_switches()
check(len(s) == 1 and s.iloc[0] == 2, s)
''')

seed('a01-states-not-refreshed', 'A01', 'a model trained, used, and trained again on further appliances',
     'the combinations of states are built once and not again when an appliance is added',
     [('nilmtk/disaggregate/combinatorial_optimisation.py', "        if (self.state_combinations is None or\n                self.state_combinations.shape[1] != len(self.model)):\n", "        if self.state_combinations is None:\n")],
     '''
from nilmtk.disaggregate import CO
def df(v):
    return frame(range(len(v)), v)
fridge, kettle = [0, 0, 100, 100] * 20, [0, 2000, 0, 2000] * 20
m = CO({})
m.partial_fit([df(fridge)], [('fridge', [df(fridge)])])
m.disaggregate_chunk([df(fridge)])
both = [a + b for a, b in zip(fridge, kettle)]
m.partial_fit([df(both)], [('kettle', [df(kettle)])])
try:
    p = m.disaggregate_chunk([df(both)])[0]
except IndexError as e:
    check(False, e)
check(abs(p.sum(axis=1).values - np.array(both)).max() < 1, p.head())
''')

seed('a02-mean-of-means', 'A02', 'training data handed over in several calls of unequal length',
     'a model trained again forgets the readings of earlier calls',
     [('nilmtk/disaggregate/mean.py', "            app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})\n", "            app_dict = dict(sum=0, n_elem=0) if len(power) > 1 else self.model.get(app_name, {'sum': 0,'n_elem': 0})\n")],
     '''
from nilmtk.disaggregate import Mean
def df(v):
    return frame(range(len(v)), v)
m = Mean({})
m.partial_fit([df([9])], [('fridge', [df([10, 20])])])
m.partial_fit([df([9])], [('fridge', [df([30]), df([40, 50, 60])])])
p = m.disaggregate_chunk([df([1, 2])])[0]['fridge'].iloc[0]
check(abs(p - 35) < 1e-9, p)
''')

seed('a03-unsorted-transitions', 'A03', 'a chain of three or more states learnt in an order whose inverse differs from it',
     'the transition matrix is permuted by the inverse mapping for its columns',
     [('nilmtk/disaggregate/fhmm_exact.py', "            A_new[i, j] = A[mapping[i], mapping[j]]", "            A_new[mapping[i], mapping[j]] = A[i, j]")],
     '''
from nilmtk.disaggregate.fhmm_exact import sort_learnt_parameters
means = np.array([[300.], [100.], [200.]])
pi = np.array([.5, .2, .3])
A = np.arange(9, dtype=float).reshape(3, 3)
c = np.arange(3.).reshape(3, 1, 1)
pi2, m2, c2, A2 = sort_learnt_parameters(pi, means, c, A)
o = [1, 2, 0]
check((A2 == A[np.ix_(o, o)]).all(), A2)
''')

seed('a04-percent-of-smaller', 'A04', 'a large rising edge followed by a falling edge that differs by a little more than the tolerance',
     'the relative tolerance is applied to edges of every size',
     [('nilmtk/disaggregate/hart_85.py', "if (max(np.fabs([val[ix], compval[ix]])) < self._large_transition)", "if (min(np.fabs([val[ix], compval[ix]])) < self._large_transition)")],
     '''
from nilmtk.disaggregate.hart_85 import PairBuffer
b = PairBuffer(columns=[('power', 'active')], buffer_size=20, min_tolerance=20, percent_tolerance=.05, large_transition=1000, num_measurements=2)
b.add_transition((at(0), 1020.))
b.pair_transitions()
b.add_transition((at(9), -990.))
b.pair_transitions()
check(len(b.matched_pairs) == 1, b.matched_pairs)
''')

seed('l01-relative-to-truth', 'L01', 'predictions that differ from the measurements',
     'the relative error divides by the measurement instead of the prediction... ',
     [('nilmtk/losses.py', "    denominator = constant + app_pred", "    denominator = constant + np.maximum(app_gt, app_pred)")],
     '''
from nilmtk.losses import relative_error
e = relative_error(pd.Series([10., 4.]), pd.Series([4., 9.]))
check(abs(e - (6 / 5. + 5 / 10.) / 2) < 1e-9, e)
''')

seed('l01-threshold-at-10', 'L01', 'a reading of exactly 10 W',
     'a reading of exactly the threshold counts as off',
     [('nilmtk/losses.py', "    pred_temp = np.where(pred_temp<threshold,0,1)", "    pred_temp = np.where(pred_temp<=threshold,0,1)")],
     '''
from nilmtk.losses import f1score
e = f1score(pd.Series([10., 0., 50.]), pd.Series([10., 0., 60.]))
check(abs(e - 1) < 1e-9, e)
''')

seed('d04-two-digit-buildings', 'D04', 'a data set with a building number of two digits kept as text',
     'buildings with two-digit numbers are not listed and so lost on conversion from text',
     [('nilmtk/datastore/csvdatastore.py', "re.match('building[0-9]*', directory)", "re.match('building[0-9]$', directory)")],
     '''
from nilmtk.datastore.datastore import convert_datastore
d = dataset_n({b: ({1: (frame([0, 1, 2], [b, 2, 3]), {'site_meter': True})}, []) for b in (1, 12)})
text = CSVDataStore(os.path.join(SCRATCH, 'text'))
convert_datastore(d.store, text)
back = HDFDataStore(os.path.join(SCRATCH, 'back.h5'), 'w')
convert_datastore(text, back)
check(sorted(back.elements_below_key()) == ['building1', 'building12'], back.elements_below_key())
check(list(back['/building12/elec/meter1'].iloc[:, 0]) == [12, 2, 3])
''')

seed('d03-window-after-first-chunk', 'D03', 'look-ahead asked for while a window or section cuts off the beginning of the file',
     'the rows to skip are counted from the first row delivered instead of from the start of the piece',
     [('nilmtk/datastore/csvdatastore.py', "                    subchunk_end = np.max(np.nonzero(subchunk_idx))\n", "                    subchunk_end = len(subchunk) - 1\n")],
     '''
st = CSVDataStore(os.path.join(SCRATCH, 'text'))
st.put('/building1/elec/meter1', frame(range(10), range(10)))
c = next(st.load('/building1/elec/meter1', sections=[tfr(3, 6)], n_look_ahead_rows=2))
check(list(c.look_ahead.iloc[:, 0]) == [6, 7], c.look_ahead)
''')

seed('n01-metadata-shared', 'N01', 'metadata asked of a step which has results',
     'the results of a step are written into the metadata of the source',
     [('nilmtk/node.py', "            metadata = deepcopy(self.upstream.get_metadata())\n", "            metadata = self.upstream.get_metadata()\n")],
     '''
import copy
from nilmtk.stats import TotalEnergy
from nilmtk.preprocessing import Clip
m = dataset({1: (frame(range(5), [100] * 5), {'site_meter': True})}).buildings[1].elec[1]
node = TotalEnergy(Clip(m.get_source_node()))
before = copy.deepcopy(m.get_metadata())
node.run()
node.get_metadata()
check(m.get_metadata() == before, m.get_metadata())
''')

seed('n01-announcements-shared', 'N01', 'two pipelines of the same step, the first over a source with metadata the second lacks',
     'the announcements of a step gather the metadata of every source it ran on',
     [('nilmtk/node.py', "        state = deepcopy(self.__class__.postconditions)\n", "        state = self.__class__.postconditions\n")],
     '''
from nilmtk.preprocessing import Clip
from nilmtk.node import UnsatisfiedRequirementsError
class Source(object):
    def __init__(self, md):
        self.md = md
    def dry_run_metadata(self):
        return self.md
    get_metadata = dry_run_metadata
    def process(self):
        yield frame([0, 1], [5, 500])
full = {'device': {'measurements': [{'physical_quantity': 'power', 'type': 'active', 'lower_limit': 0, 'upper_limit': 100}]}}
Clip(Clip(Source(full))).check_requirements()
try:
    Clip(Clip(Source({}))).check_requirements()
except UnsatisfiedRequirementsError:
    sys.exit(0)
check(False, 'not refused')
''')

seed('m01-half-precision', 'M01', 'powers above 2 kW',
     'the sum is formed in half precision',
     [('nilmtk/metergroup.py', "    DTYPE = np.float32\n", "    DTYPE = np.float16\n")],
     '''
e = dataset({1: (frame(range(4), [2049, 10, 3003, 7]), {'site_meter': True}), 2: (frame(range(4), [1, 2, 3, 4]), {'submeter_of': 1})}).buildings[1].elec
v = list(next(e.load()).iloc[:, 0])[:3]
check(v == [2050, 12, 3006], v)
''')

seed('m01-missing-where-any', 'M01', 'a period in which one meter has no reading and an earlier one has',
     'a period is missing as soon as one of the meters has no reading',
     [('nilmtk/metergroup.py', "np.isnan(cumulator_col) & np.isnan(aligned)", "np.isnan(aligned)")],
     '''
e = dataset({1: (frame(range(8), range(8)), {'site_meter': True}), 2: (frame([0, 1, 6, 7], [1, 1, 1, 1]), {'submeter_of': 1})}).buildings[1].elec
s = next(e.load()).iloc[:, 0]
check(s[at(4)] == 4, s)
''')

seed('m04-sections-over-a-day', 'M04', 'a good section of the mains longer than a day',
     'whole days of a good section are not counted when finding where to split',
     [('nilmtk/metergroup.py', "            int((ts.end - ts.start).total_seconds() / sample_period) for ts in good_sections]", "            int((ts.end - ts.start).seconds / sample_period) for ts in good_sections]")],
     '''
h = 3600
e = dataset({1: (frame(range(0, 51 * h, h), [1] * 51), {'site_meter': True}), 2: (frame([0, h], [1, 1]), {'submeter_of': 1})},
            dev=device(sample_period=h, max_sample_period=2 * h)).buildings[1].elec
t = e.train_test_split(.5)
check(t == at(25 * h), t)
''')

seed('m04-all-submeters', 'M04', 'submeters below other submeters',
     'the share of the mains that is submetered counts meters below other meters too',
     [('nilmtk/metergroup.py', "        downstream_meters = self.meters_directly_downstream_of_mains()\n        proportion = 0.0", "        downstream_meters = self.submeters()\n        proportion = 0.0")],
     '''
e = dataset({1: (frame(range(6), [100] * 6), {'site_meter': True}), 2: (frame(range(6), [60] * 6), {'submeter_of': 1}), 3: (frame(range(6), [30] * 6), {'submeter_of': 2})}).buildings[1].elec
p = e.proportion_of_energy_submetered()
check(abs(p - .6) < 1e-6, p)
''')

seed('c01-redd-both-dropped', 'C01', 'raw rows of the same time, with duplicates to be dropped',
     'all rows of a repeated time are dropped, not only the later ones',
     [('nilmtk/dataset_converters/redd/convert_redd.py', "duplicated(keep='first')", "duplicated(keep=False)")],
     '''
from nilmtk.dataset_converters.redd import convert_redd as c
h = os.path.join(SCRATCH, 'redd', 'house_1')
os.makedirs(h)
with open(os.path.join(h, 'channel_1.dat'), 'w') as f:
    f.write('1303132929 10.5\\n1303132930 11.5\\n1303132930 12.5\\n1303132931 13.5\\n')
st = HDFDataStore(os.path.join(SCRATCH, 'redd.h5'), 'w')
c._convert(os.path.join(SCRATCH, 'redd'), st, lambda house, chan: [('power', 'apparent')], 'US/Eastern', drop_duplicates=True)
v = list(st['/building1/elec/meter1'].iloc[:, 0])
check(v == [10.5, 11.5, 13.5], v)
''')

seed('c01-refit-house-number', 'C01', 'houses after the missing one',
     'houses keep their raw number although the metadata number them without the missing one',
     [('nilmtk/dataset_converters/refit/convert_refit.py', "            key = Key(building=nilmtk_house_id, meter=chan_id)", "            key = Key(building=house_id, meter=chan_id)")],
     '''
from nilmtk.dataset_converters.refit import convert_refit as c
raw = os.path.join(SCRATCH, 'refit')
os.makedirs(raw)
cols = ['Aggregate'] + ['Appliance%d' % i for i in range(1, 10)]
for i in [x for x in range(1, 22) if x != 14]:
    with open(os.path.join(raw, 'House_%d.csv' % i), 'w') as f:
        f.write('Time,Unix,' + ','.join(cols) + '\\n')
        f.write('x,1380000000,' + ','.join(str(i) for k in cols) + '\\n')
st = HDFDataStore(os.path.join(SCRATCH, 'refit.h5'), 'w')
c._convert(raw, st, 'Europe/London')
v = st['/building14/elec/meter1'].iloc[0, 0]
check(v == 15, v)
''')

seed('a05-truth-of-first-building', 'A05', 'a test data set with two buildings, tested jointly',
     'the predictions for later buildings are compared with the readings of the first',
     [('nilmtk/api.py', "                gt[meter] = pd.Series(concatenated_df_app.values.flatten(),index=index)", "                gt.setdefault(meter, pd.Series(concatenated_df_app.values.flatten(), index=index))")],
     '''
from nilmtk.api import API
from nilmtk.disaggregate import Mean
n = 20
d = dataset_n({b: ({1: (frame(range(n), [500] * n), {'site_meter': True}), 2: (frame(range(n), [100 * b] * n), {'submeter_of': 1})},
                   [{'type': 'fridge', 'instance': 1, 'meters': [2]}]) for b in (1, 2)})
p = d.store.store.filename
d.store.close()
w = {'start_time': None, 'end_time': None}
a = API({'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 1, 'appliances': ['fridge'],
         'methods': {'Mean': Mean({})},
         'train': {'datasets': {'D': {'path': p, 'buildings': {1: w}}}},
         'test': {'datasets': {'D': {'path': p, 'buildings': {1: w, 2: w}}}, 'metrics': ['mae']}})
e = dict(zip(a.errors_keys, a.errors))
check(abs(e['D_2_mae'].loc['fridge', 'Mean'] - 100) < 1e-3, e)
''')

seed('a05-last-appliance-only', 'A05', 'appliances lacking readings at different instants',
     'the common readings are those of the mains and the last appliance; others are filled in',
     [('nilmtk/api.py', "            ix = ix.intersection(app_df.index)\n", "            ix = mains_df.index.intersection(app_df.index)\n"),
      ('nilmtk/api.py', "            new_appliances_list.append(app_df.loc[ix])", "            new_appliances_list.append(app_df.reindex(ix))")],
     '''
from nilmtk.api import API
from nilmtk.disaggregate import Disaggregator
n = 20
got = []
class Model(Disaggregator):
    MODEL_NAME = 'M'
    def __init__(self):
        self.load_model_path = None
        self.chunk_wise_training = False
    def partial_fit(self, mains, apps, **kw):
        got.append((mains[0].index, [a[1][0] for a in apps]))
    def disaggregate_chunk(self, mains):
        return [pd.DataFrame({'fridge': 0., 'kettle': 0.}, index=m.index) for m in mains]
d = dataset({1: (frame(range(n), [500] * n), {'site_meter': True}),
             2: (frame([i for i in range(n) if not 4 <= i < 12], [100] * 12), {'submeter_of': 1}),
             3: (frame(range(n - 4), [50] * (n - 4)), {'submeter_of': 1})},
            [{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [3]}])
p = d.store.store.filename
d.store.close()
ds = {'datasets': {'D': {'path': p, 'buildings': {1: {'start_time': None, 'end_time': None}}}}}
API({'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 1, 'appliances': ['fridge', 'kettle'],
     'methods': {'M': Model()}, 'train': ds, 'test': dict(ds, metrics=['mae'])})
check(not any(a.isnull().any().any() for a in got[0][1]), got)
check(at(9) not in got[0][0], got[0][0])
''')

seed('l02-plain-mean', 'L02', 'a prediction with good sections of different lengths',
     'the F1 scores of the pieces are averaged without weights',
     [('nilmtk/metrics.py', "                scores_for_meter['num_samples'] / num_samples)", "                scores_for_meter['num_samples'] / scores_for_meter['num_samples'] / len(scores_for_meter))")],
     '''
from nilmtk.metrics import f1_score
app = [{'type': 'fridge', 'instance': 1, 'meters': [2], 'on_power_threshold': 50}]
offs = list(range(4)) + list(range(20, 32))
def ds(v):
    return dataset({1: (frame(offs, [500] * 16), {'site_meter': True}), 2: (frame(offs, v), {'submeter_of': 1})}, app).buildings[1].elec
truth = [100, 100, 0, 100] + [100, 0] * 6
pred = [0, 100, 0, 100] + [100, 0] * 6
f = f1_score(ds(pred), ds(truth)).iloc[0]
w = (.8 * 4 + 1. * 12) / 16
check(abs(f - w) < .02, f, w)
''')

seed('l02-energy-of-everything', 'L02', 'measurements at instants for which nothing was predicted',
     'the energy predicted is compared with all the energy measured, also outside the good sections of the prediction',
     [('nilmtk/metrics.py', "ground_truth_meter.total_energy(sections=sections)", "ground_truth_meter.total_energy()")],
     '''
from nilmtk.metrics import error_in_assigned_energy
app = [{'type': 'fridge', 'instance': 1, 'meters': [2]}]
def ds(n, v):
    return dataset({1: (frame(range(20), [500] * 20), {'site_meter': True}), 2: (frame(range(n), [v] * n), {'submeter_of': 1})}, app).buildings[1].elec
e = float(np.ravel(error_in_assigned_energy(ds(8, 100), ds(20, 100)).values)[0])
check(abs(e) < 1e-9, e)
''')

seed('d05-first-space-only', 'D05', 'an appliance type of three or more words',
     'only the first space of an appliance type is replaced in the name of its table',
     [('nilmtk/dataset.py', "appliance.identifier.type.replace(' ', '_')", "'_'.join(appliance.identifier.type.split(' ', 1))")],
     '''
import tempfile, os
ds = dataset({1: (frame(range(8), [500] * 8), {'site_meter': True}), 2: (frame(range(8), [0, 0, 90, 90, 0, 0, 0, 0]), {'submeter_of': 1})},
             [{'type': 'air source heat pump', 'instance': 1, 'meters': [2]}])
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 's.h5')
    ds.get_activity_script(p)
    with pd.HDFStore(p, 'r') as st:
        keys = list(st.keys())
check(keys == ['/building1/air_source_heat_pump__1'], keys)
''')

seed('d05-shared-instants', 'D05', 'two runs of an appliance one reading apart',
     'where one activation ends at the instant at which the next one starts, one of the two is dropped from the script',
     [('nilmtk/dataset.py', "                script = script.sort_index()\n", "                script = script.sort_index()\n                script = script[~script.index.duplicated()]\n")],
     '''
import tempfile, os
ds = dataset({1: (frame(range(9), [500] * 9), {'site_meter': True}), 2: (frame(range(9), [0, 0, 90, 0, 0, 90, 90, 0, 0]), {'submeter_of': 1})},
             [{'type': 'light', 'instance': 1, 'meters': [2]}])
starts, ends = [], []
for a in ds.buildings[1].elec[2].get_activations():
    starts.append(a.index[0]); ends.append(a.index[-1])
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 's.h5')
    ds.get_activity_script(p)
    with pd.HDFStore(p, 'r') as st:
        s = st['/building1/light__1']
check(sorted(s.index[s]) == starts and sorted(s.index[~s]) == ends, s, starts, ends)
''')

seed('d05-uptime-of-a-day', 'D05', 'mains that are up for more than a day',
     'whole days of uptime are lost when its share of the time frame is computed',
     [('nilmtk/metergroup.py', "(mains_uptime.total_seconds() /", "(mains_uptime.seconds /")],
     '''
n = 30
ds = dataset({1: (frame([3600 * i for i in range(n)], [500] * n), {'site_meter': True}), 2: (frame([3600 * i for i in range(n)], [50] * n), {'submeter_of': 1})},
             dev=device(sample_period=3600, max_sample_period=3600))
d = ds.buildings[1].elec.describe(compute_expensive_stats=False)
check(abs(d['proportion_uptime'] - 1) < 1e-9, d)
''')

seed('d05-disabled-site-meter', 'D05', 'a disabled site meter',
     'site meters that are disabled are counted among the meters but not among the site meters',
     [('nilmtk/metergroup.py', "site_meters = [m for m in all_meters if m.is_site_meter()]", "site_meters = [m for m in self.meters if m.is_site_meter()]")],
     '''
ds = dataset({1: (frame(range(8), [500] * 8), {'site_meter': True}), 3: (frame(range(8), [500] * 8), {'site_meter': True, 'disabled': True}),
              2: (frame(range(8), [50] * 8), {'submeter_of': 1})})
d = ds.buildings[1].elec.describe(compute_expensive_stats=False)
check(d['total_n_meters'] == 3 and d['total_n_site_meters'] == 2, d)
''')

A06_KIT = '''
import io, contextlib
from nilmtk.legacy.disaggregate import CombinatorialOptimisation
N = 40
def table(present):
    return frame([10 * i for i in present], [200. * (i % 2) for i in present])
def source(present=range(N), apps=()):
    return dataset({1: (table(present), {'site_meter': True}), 2: (table(range(N)), {'submeter_of': 1})},
                   apps or [{'type': 'kettle', 'instance': 1, 'meters': [2]}], dev=device(sample_period=10, max_sample_period=10))
def trained(ds, shortest=5):
    co = CombinatorialOptimisation()
    co.MIN_CHUNK_LENGTH = shortest
    co.model = [{'states': np.array([0, 200]), 'training_metadata': ds.buildings[1].elec[2]}]
    return co
def disaggregated(ds, co):
    p = os.path.join(SCRATCH, 'out%d.h5' % len(os.listdir(SCRATCH)))
    out = HDFDataStore(p, 'w')
    with contextlib.redirect_stdout(io.StringIO()):
        co.disaggregate(ds.buildings[1].elec.mains(), out, sample_period=10)
    out.close()
    return DataSet(p)
'''

seed('a06-shortest-chunk', 'A06', 'a good section with exactly the shortest number of readings',
     'a piece of exactly the shortest length is left out of the prediction',
     [('nilmtk/legacy/disaggregate/combinatorial_optimisation.py', "            # Check that chunk is sensible size\n            if len(chunk) < self.MIN_CHUNK_LENGTH:", "            # Check that chunk is sensible size\n            if len(chunk) <= self.MIN_CHUNK_LENGTH:")],
     A06_KIT + '''
ds = source([i for i in range(N) if not 10 <= i < 35])
d = disaggregated(ds, trained(ds))
n = len(d.store.store['/building1/elec/meter2'])
check(n == 9 + 5, n)
''')

seed('a06-first-appliance', 'A06', 'a trained meter with two appliances',
     'only the first appliance of a trained meter is written to the data set',
     [('nilmtk/legacy/disaggregate/disaggregator.py', "                for app in meter.appliances:", "                for app in meter.appliances[:1]:")],
     A06_KIT + '''
ds = source(apps=[{'type': 'kettle', 'instance': 1, 'meters': [2]}, {'type': 'light', 'instance': 2, 'meters': [2]}])
d = disaggregated(ds, trained(ds))
n = sorted(a.identifier.type for a in d.buildings[1].elec[2].appliances)
check(n == ['kettle', 'light'], n)
''')

seed('a06-frame-of-first-piece', 'A06', 'mains with a gap',
     'the time frame of the written data set ends where the first piece ends',
     [('nilmtk/legacy/disaggregate/disaggregator.py', "merged_timeframes[-1].end)", "merged_timeframes[0].end)")],
     A06_KIT + '''
ds = source([i for i in range(N) if not 10 <= i < 20])
d = disaggregated(ds, trained(ds))
tf = TimeFrame.from_dict(d.metadata['timeframe'])
check(tf.end >= at(390), tf)
''')

seed('a06-failed-export', 'A06', 'an export to a file that cannot be written',
     'an export that fails leaves the trained meters without their store',
     [('nilmtk/legacy/disaggregate/combinatorial_optimisation.py', "        try:\n            with open(filename, 'wb') as out_file:\n                pickle.dump(self, out_file)\n        finally:\n            # Restore the stores even if the pickling fails\n            for original_store, pair in zip(original_stores, self.model):\n                pair['training_metadata'].store = original_store\n",
       "        with open(filename, 'wb') as out_file:\n            pickle.dump(self, out_file)\n\n        for original_store, pair in zip(original_stores, self.model):\n            pair['training_metadata'].store = original_store\n")],
     A06_KIT + '''
ds = source()
co = trained(ds)
try:
    co.export_model(os.path.join(SCRATCH, 'nowhere', 'model'))
except OSError:
    pass
check(len(next(ds.buildings[1].elec[2].power_series())) == N)
''')

seed('a06-states-of-the-other', 'A06', 'a factorial model of three meters with different numbers of states',
     'the states of a joint state are read off in the wrong base',
     [('nilmtk/legacy/disaggregate/fhmm_exact.py', "            factor = factor // len(centroids[appliance])\n", "            factor = factor // len(centroids[next(iter(appliance_list))])\n")],
     '''
from nilmtk.legacy.disaggregate.fhmm_exact import decode_hmm
c = {'a': [0, 100], 'b': [0, 10, 20], 'c': [0, 5]}
st, pw = decode_hmm(12, c, ['a', 'b', 'c'], list(range(12)))
got = [(int(x), int(y), int(z)) for x, y, z in zip(st['a'], st['b'], st['c'])]
check(sorted(got) == [(i, j, k) for i in range(2) for j in range(3) for k in range(2)], got)
''')

seed('s05-clear-plain-names', 'S05', 'a statistic of one AC type asked for, the data changed and the cache cleared',
     'clearing the cache forgets only the statistics asked for without AC type or columns',
     [('nilmtk/elecmeter.py', "        key_for_cache = self.key_for_cached_stat('')\n        try:\n            self.cache.remove(key_for_cache)\n",
       "        key_for_cache = self.key_for_cached_stat('')\n        try:\n            for stat in ('total_energy', 'good_sections', 'dropout_rate'):\n                key = self.key_for_cached_stat(stat)\n                if key in self.cache.store:\n                    self.cache.remove(key)\n")],
     '''
ds = dataset({1: (frame(range(10), [3600] * 10), {'site_meter': True})})
m = ds.buildings[1].elec[1]
m.total_energy(ac_type='active')
ds.store.close()
ds.store.open(mode='a')
ds.store.put('/building1/elec/meter1', frame(range(10), [7200] * 10))
m.clear_cache()
e = m.total_energy(ac_type='active')['active']
check(abs(e - 0.018) < 1e-9, e)
''')

seed('m02-last-criterion-wins', 'M02', 'two criteria, the second one with a list of values in the appliance type',
     'a criterion met by one of the values of a list hides an earlier criterion that is not met',
     [('nilmtk/appliance.py', "                    if v not in metadata_value:\n                        match = False\n                elif metadata_value != v:\n", "                    match = v in metadata_value\n                elif metadata_value != v:\n")],
     '''
apps = [{'type': 'fridge', 'instance': 1, 'meters': [2], 'room': 'kitchen'}]
e = dataset({1: (frame([0, 1], [1, 2]), {'site_meter': True}), 2: (frame([0, 1], [1, 2]), {'submeter_of': 1})}, apps).buildings[1].elec
f = e[2].appliances[0]
check(f.matches({'room': 'kitchen', 'control': 'thermostat'}))
check(not f.matches({'room': 'cellar', 'control': 'thermostat'}))
''')

seed('m02-own-name-of-type', 'M02', 'an appliance type with synonyms',
     'an appliance whose type has synonyms is found by them but no longer by its own type',
     [('nilmtk/appliance.py', "                    synonyms = self.type.get('synonyms', [])\n                    synonyms.append(self.identifier.type)\n", "                    synonyms = self.type.get('synonyms', [self.identifier.type])\n")],
     '''
apps = [{'type': 'fridge', 'instance': 1, 'meters': [2]}, {'type': 'kettle', 'instance': 1, 'meters': [3]}]
t = lambda: frame([0, 1], [1, 2])
e = dataset({1: (t(), {'site_meter': True}), 2: (t(), {'submeter_of': 1}), 3: (t(), {'submeter_of': 1})}, apps).buildings[1].elec
check([m.instance() for m in e.select_using_appliances(type='refrigerator').meters] == [2])
check([m.instance() for m in e.select_using_appliances(type=['fridge', 'kettle']).meters] == [2, 3])
''')

seed('d02-remove-by-prefix', 'D02', 'a store with a tenth building or meter',
     'removing a table removes every table whose name starts alike',
     [('nilmtk/datastore/hdfdatastore.py', "        self.store.remove(key)\n        self.store.flush()\n", "        for k in self.store.keys():\n            if k.startswith(key) and k != key:\n                self.store.remove(k)\n        self.store.remove(key)\n        self.store.flush()\n")],
     '''
st = HDFDataStore(os.path.join(SCRATCH, 'a.h5'), 'w')
for i in (1, 2, 10):
    st.put('/building1/elec/meter%d' % i, frame([0, 1], [i, i]))
st.remove('/building1/elec/meter1')
check(sorted(st.elements_below_key('/building1/elec')) == ['meter10', 'meter2'], st.elements_below_key('/building1/elec'))
''')

seed('e05-shorter-period', 'E05', 'two meters with different sample periods',
     'meters of different sample periods are compared at the shorter one, on readings filled forward',
     [('nilmtk/electric.py', "        sample_period = max(self.sample_period(), other.sample_period())\n        load_kwargs.setdefault('sample_period', sample_period)\n\n        def sum_and_count", "        sample_period = min(self.sample_period(), other.sample_period())\n        load_kwargs.setdefault('sample_period', sample_period)\n\n        def sum_and_count")],
     '''
slow, fast = device(sample_period=2, max_sample_period=4), device()
ds = dataset({1: (frame([0, 2, 4, 6], [1, 2, 5, 3]), {'site_meter': True, 'device_model': 'slow'}),
              2: (frame(range(8), [1, 3, 0, 4, 5, 1, 2, 6]), {'submeter_of': 1})}, devices={'dev': fast, 'slow': slow})
e = ds.buildings[1].elec
want = np.corrcoef([1, 2, 5, 3], [2, 2, 3, 4])[0, 1]
check(abs(e[1].correlation(e[2]) - want) < 1e-9, e[1].correlation(e[2]), want)
''')

seed('a05-asymmetric-loss', 'A05', 'a metric which is not symmetric in truth and prediction',
     'losses are computed with the prediction as truth and the truth as prediction',
     [('nilmtk/api.py', "            error[app_name] = loss_function(gt[app_name],clf_pred[app_name])", "            error[app_name] = loss_function(clf_pred[app_name], gt[app_name])")],
     '''
from nilmtk.api import API
from nilmtk.disaggregate import Mean
n = 20
d = dataset_n({b: ({1: (frame(range(n), [500] * n), {'site_meter': True}), 2: (frame(range(n), [100 * b] * n), {'submeter_of': 1})},
                   [{'type': 'fridge', 'instance': 1, 'meters': [2]}]) for b in (1, 2)})
p = d.store.store.filename
d.store.close()
w = {'start_time': None, 'end_time': None}
a = API({'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 1, 'appliances': ['fridge'],
         'methods': {'Mean': Mean({})},
         'train': {'datasets': {'D': {'path': p, 'buildings': {1: w}}}},
         'test': {'datasets': {'D': {'path': p, 'buildings': {2: w}}}, 'metrics': ['nep']}})
check(abs(a.errors[0].loc['fridge', 'Mean'] - 0.5) < 1e-6, a.errors)
''')

seed('a05-epochs-within-epochs', 'A05', 'chunk-wise training of a model which has epochs of its own',
     'the epochs of a model are run for each piece again, so each piece is trained on epochs squared times',
     [('nilmtk/api.py', "                        n_epochs = clf.n_epochs\n                        clf.n_epochs = 1\n", "                        n_epochs = clf.n_epochs\n")],
     '''
from nilmtk.api import API
from nilmtk.disaggregate import Disaggregator
n = 20
rounds = []
class Model(Disaggregator):
    MODEL_NAME = 'M'
    def __init__(self):
        self.load_model_path = None
        self.chunk_wise_training = True
        self.n_epochs = 3
    def partial_fit(self, mains, apps, **kw):
        for e in range(self.n_epochs):
            rounds.append(mains[0].index[0])
    def disaggregate_chunk(self, mains):
        return [pd.DataFrame({'fridge': 0.}, index=m.index) for m in mains]
d = dataset({1: (frame(range(n), [500] * n), {'site_meter': True}), 2: (frame(range(n), [100] * n), {'submeter_of': 1})},
            [{'type': 'fridge', 'instance': 1, 'meters': [2]}])
p = d.store.store.filename
d.store.close()
ds = {'datasets': {'D': {'path': p, 'buildings': {1: {'start_time': None, 'end_time': None}}}}}
API({'power': {'mains': ['active'], 'appliance': ['active']}, 'sample_rate': 1, 'appliances': ['fridge'], 'chunk_size': 100,
     'methods': {'M': Model()}, 'train': ds, 'test': dict(ds, metrics=['mae'])})
check(len(rounds) == 3, rounds)
''')

seed('m04-whole-days', 'M04', 'a meter with more than a day of good sections',
     'the average energy per period counts the uptime beyond whole days only',
     [('nilmtk/electric.py', "        uptime_secs = td.total_seconds()\n", "        uptime_secs = td.seconds or td.total_seconds()\n")],
     '''
n = 31
df = frame([3600 * i for i in range(n)], [1000] * n)
m = dataset({1: (df, {'site_meter': True})}, dev=device(sample_period=3600, max_sample_period=3600)).buildings[1].elec[1]
e = m.average_energy_per_period('D')['active']
check(abs(e - 24) < 1e-6, e)
''')
