"""Builders for reports, voyages and decks, and the parameter set used by the harnesses"""
import copy
import Extended_IMMA as ex


class RecData(object):
    def __init__(self, d):
        self.data = d


BASE = {'ID': 'SHIPA    ', 'UID': 'AAAAAA', 'YR': 2003, 'MO': 7, 'DY': 5, 'HR': 12.0, 'LAT': 10.0, 'LON': 20.0,
        'SST': 15.0, 'AT': 14.0, 'DPT': 10.0, 'SLP': 1013.0, 'DCK': 926, 'PT': 5, 'SID': 103}


def report(cls=None, ext=None, **kw):
    d = dict(BASE)
    for k, v in kw.items():
        d[k] = v
    r = (cls or ex.MarineReport)(RecData(d))
    for k, v in (ext or {}).items():
        r.setext(k, v)
    return r


def qcreport(**kw):
    return report(ex.MarineReportQC, **kw)


PARAMS = {
    'base': {'time_since_sun_above_horizon': 1.0},
    'SST': {'freezing_point': -1.80, 'freeze_check_n_sigma': 2.0, 'maximum_anomaly': 8.0, 'hard_limits': [-5.0, 45.0]},
    'AT': {'maximum_anomaly': 10.0, 'hard_limits': [-80.0, 65.0], 'minmax_standard_deviation': [1.0, 4.0],
           'maximum_standardised_anomaly': 5.5},
    'DAT': {'maximum_anomaly': 10.0, 'hard_limits': [-80.0, 65.0]},
    'DPT': {'minmax_standard_deviation': [1.0, 4.0], 'maximum_standardised_anomaly': 5.5, 'hard_limits': [-80.0, 65.0]},
    'SHU': {'hard_limits': [0.0, 65.0]},
    'RH': {'hard_limits': [0.0, 150.0]},
    'SLP': {'maximum_anomaly': 100.0, 'maximum_standardised_anomaly': 3.0, 'lowbar': 10.0},
    'W': {'hard_limits': [0.0, 50.0], 'variable_limit': 3.0},
    'track_check': {'max_direction_change': 60.0, 'max_speed_change': 10.0, 'max_absolute_speed': 40.0,
                    'max_midpoint_discrepancy': 150.0},
    'IQUAM_track_check': {'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01,
                          'number_of_neighbours': 5},
    'IQUAM_spike_check': {'max_gradient_space': 0.5, 'max_gradient_time': 1.0, 'ship_delta_t': 2.0,
                          'buoy_delta_t': 1.0, 'number_of_neighbours': 5},
    'saturated_runs': {'min_time_threshold': 48.0, 'shortest_run': 4},
    'multiple_rounded_values': {'min_count': 20, 'threshold': 0.5},
    'find_repeated_values': {'min_count': 20, 'threshold': 0.7},
    'mds_buddy_check': {'limits': [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]],
                        'number_of_obs_thresholds': [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
                        'multipliers': [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]},
    'slp_buddy_check': {'limits': [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]],
                        'number_of_obs_thresholds': [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
                        'multipliers': [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]},
    'bayesian_buddy_check': {'prior_probability_of_gross_error': 0.05, 'quantization_interval': 0.1,
                             'measurement_error': 1.0, 'limits': [2, 2, 4], 'noise_scaling': 3.0},
}


def params(**over):
    p = copy.deepcopy(PARAMS)
    for k, v in over.items():
        p[k].update(v)
    return p
