"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, tech, note, level, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = False
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why, anchors=a,
                  _tech=tech, _note=note, _level=level))


I = ['inputs']
H = ['histories', 'inputs']
EX = 'exhaustive enumeration of a bounded input space on the real code against an independent reference model'
MC = 'explicit-state bounded exploration of all operation sequences, real code replayed against a reference model after every step'

prop('C01', 'Months, pentads, seasons and day numbers agree with the calendar',
     'Month lengths, day-of-year numbers, seasons, the day before a date and five-day period (pentad) numbers agree with the Gregorian calendar for every date, with 29 February sharing the pentad of 1 March, '
     'and the maps between pentads and dates are inverse to each other. Impossible months, days and pentads are refused, never answered.',
     I, 'every year, month and day, possible or not', 'Tests sample about a dozen dates; leap days, year ends, month 0 and 13 and every pentad border are separate cases.',
     ['qc.py', 'Climatology.py'], [('month lengths, day in year, pentads, season, yesterday', 'qc.py')], EX,
     'Every day of every year in the stated range; relies on Python\'s datetime for the reference calendar.', 'exploration')
prop('C02', 'Month iteration visits every month of a period once, in order, and ends',
     'Stepping from a start month to an end month yields each calendar month of the period once and in order, including over year ends, and each month\'s neighbours (last month, next month) are the calendar neighbours. '
     'Iteration terminates for every start and end, and a period whose end precedes its start is empty.',
     I, 'every pair of start and end months', 'The tests run a few periods; non-termination and year-end behaviour depend on the pair.',
     ['qc.py'], [('month iterator', 'qc.py year_month_gen'), ('neighbouring months', 'qc.py last_month_was, next_month_is')], MC,
     'All pairs in a window of years with a step horizon, state by state.', 'model_checking')
prop('C03', 'Julian days and time differences are exact for all pairs of instants',
     'The Julian day of every date is the astronomical one and the time between any two date-times is their exact signed difference in hours, whatever months, leap days, years or centuries lie between. '
     'Swapping the instants only changes the sign.',
     I, 'every ordered pair of instants', 'Tests have a dozen pairs; leap and century borders multiply.',
     ['qc.py'], [('Julian day', 'qc.py jul_day'), ('time difference', 'qc.py time_difference')], EX, 'Every day 1583-2100 and all ordered pairs of an alphabet of border instants.', 'exploration')
prop('C04', 'Day or night is decided by where the sun really stands',
     'The sun elevation computed for any place and instant is within a fraction of a degree of its astronomical value, in every year, season, hour, latitude and longitude convention. '
     'A report is flagged as daytime exactly when the sun was above the horizon the requested number of hours earlier, and times outside their range give the documented default, not an error.',
     I, 'every place, date and hour', 'Tests check a handful of sun positions in recent years.',
     ['qc.py'], [('solar position', 'qc.py sunangle'), ('day test', 'qc.py day_test'), ('report flag', 'Extended_IMMA.py do_day_check')], EX,
     'Product of years x days x hours x positions against the Astronomical Almanac formula; instants within 0.05 deg (0.5 deg before March 1900) of the horizon are not judged.', 'exploration')
prop('C05', 'Every position falls in exactly one grid cell and the cell maps are consistent',
     'For every resolution and both grid conventions, each valid position (poles, date line, either longitude convention, cell borders) belongs to one cell that contains it, and cell centres map back to their own cell. '
     'The four cells used for interpolation always enclose the point, also across the date line and next to the poles.',
     I, 'every position and resolution', 'Tests probe some points; borders, poles, date line and resolutions are a product.',
     ['qc.py', 'Climatology.py', 'BackgroundField.py'], [('cell indices', 'qc.py lat_to_yindex, lon_to_xindex, mds_*'), ('enclosing points', 'qc.py get_four_surrounding_points')], EX,
     'Exact rational reference on every multiple of the step; 1/20-degree grids judged at cell interiors only.', 'exploration')
prop('C06', 'Climatology lookup uses the right cell and day; interpolation stays in range',
     'For every position and day the climatological value returned is the one stored for the cell and time step that contain them, whatever orientation, longitude origin, time resolution or number of dimensions the file has, and a missing cell gives no value. '
     'Interpolated values reproduce constant and linear fields, use only non-missing neighbours, lie within the range of those neighbours and are defined up to the poles and across the date line.',
     ['inputs', 'configurations'], 'every position, day, field layout and pattern of missing cells', 'Tests use a few uniform fields, so wrong cells, axes or days go unseen.',
     ['Climatology.py', 'qc.py'], [('lookup', 'Climatology.py get_value, get_value_mds_style'), ('interpolation', 'Climatology.py get_interpolated_value, qc.py bilinear_interp, fill_missing_vals'), ('reading files', 'Climatology.py from_filename')], EX,
     'Fields with a different value in every cell; every layout of file is fabricated and read back.', 'exploration')
prop('C07', 'Single-value checks flag exactly the values outside their stated limits',
     'The climatology, standard-deviation, hard-limit, freezing, supersaturation, missing-value, missing-climatology and wind-consistency checks flag a value exactly when it lies outside its limits, and are antisymmetric in the direction of the departure where they should be. '
     'Missing inputs give the documented outcome for every combination of missing inputs.',
     I, 'every combination of value, normal, deviation and limit, present or missing', 'Tests try one or two points per limit.',
     ['qc.py'], [('value checks', 'qc.py climatology_check, climatology_plus_stdev_*, hard_limit, sst_freeze_check, supersaturation_check, value_check, no_normal_check, wind_consistency')], EX,
     'Full product of binary-exact alphabets through every limit.', 'exploration')
prop('C08', 'Position, date and time checks pass exactly the possible ones',
     'A position passes exactly if its latitude and longitude are present and within range, a date exactly if it exists in the Gregorian calendar within the accepted years, a time exactly if it is present and within the day. '
     'Impossible or missing parts make the check fail, never raise, and a report carrying them can always be built.',
     I, 'every year, month, day, hour and position, possible or not', 'Tests try a few bad dates; a raised error stops a whole month of data.',
     ['qc.py', 'Extended_IMMA.py'], [('validity checks', 'qc.py position_check, date_check, time_check'), ('report', 'Extended_IMMA.py do_position_check, do_date_check, do_time_check')], EX,
     'Every combination of year, month -2..15 and day -1..33 in bound; coordinate lattices through every limit.', 'exploration')
prop('C09', 'Blacklists, generic IDs and platform classes select exactly the listed reports',
     'A report is blacklisted (position, wind, humidity, air temperature), treated as having a generic call sign, or classed as ship, buoy, drifter or deck 780 exactly if its platform type, deck, identifier, year and position are in the published lists and regions. '
     'Neighbouring decks, years, regions and identifiers are not affected.',
     I, 'every platform type, deck, identifier, year and position', 'Tests check some members of the lists and few non-members.',
     ['qc.py', 'Extended_IMMA.py'], [('tables', 'qc.py blacklist, id_is_generic, mat_blacklist ...'), ('report', 'Extended_IMMA.py do_blacklist, is_buoy, is_ship')], EX,
     'Every deck/platform/year around and between the table entries, position lattice through every region border.', 'exploration')
prop('C10', 'QC flags stay where they were put; filters select exactly the matching reports',
     'Reading a flag returns the value last set for that report, group and name, untouched by any other flag operation, unset flags give the documented default, and only digits 0-9 are accepted. '
     'A filter passes a report exactly if all its conditions hold, and splitting a collection by a filter puts every report in exactly one part, in the original order, losing and duplicating none.',
     H, 'every sequence of flag operations and every filter', 'Tests set one flag and read it back.',
     ['Extended_IMMA.py'], [('flag store', 'Extended_IMMA.py MarineReport/Voyage/Deck set_qc, get_qc'), ('filters', 'Extended_IMMA.py QC_filter')], MC,
     'All sequences up to the bound; state is the full flag assignment.', 'model_checking', state=[('qc', 'flags of a report', 'Extended_IMMA.py MarineReport.qc')])
prop('C11', 'Each base QC flag is the decision of its own test on its own values',
     'After the base checks of a report every flag (position, date, time, day, blacklists, missing value, missing normal, climatology, freezing, hard limits, supersaturation, wind) equals the decision of that one test on that report\'s own values and normals under the given parameters. '
     'No flag depends on variables that do not enter its definition, and a report with anything missing is still flagged, never an error.',
     I, 'every combination of present, missing and out-of-range values', 'Tests run base QC on a few reports; wrong variable or wrong parameter group is invisible when all values are good.',
     ['Extended_IMMA.py', 'qc.py'], [('base QC', 'Extended_IMMA.py perform_base_qc and do_*')], EX, 'Full product within each variable group on clean and empty background reports.', 'exploration')
prop('C12', 'A report gives back the values last stored and its derived values follow',
     'Whatever sequence of assignments is made, reading a variable gives the last value stored (or its documented conversion on input), longitudes are reported in -180 to 180, the date-time follows year, month, day and hour, and anomalies are the difference from the attached normal. '
     'Reports are ordered by platform identifier and then time, consistently for every pair.',
     H, 'every sequence of assignments and every pair of reports', 'Tests store and read single values.',
     ['Extended_IMMA.py'], [('report store', 'Extended_IMMA.py MarineReport')], MC, 'All sequences of up to 3 (4) operations out of 34; all pairs/triples for ordering.', 'model_checking',
     state=[('data, ext, climate_variables, dt', 'contents of a report', 'Extended_IMMA.py MarineReport')])
prop('C13', 'Distances, courses and positions on the sphere are mutually consistent',
     'Great-circle distances are symmetric, non-negative, zero only for the same place and at most half the circumference, for every pair of points including poles, antipodes and the date line. '
     'Travelling from a point along a course for a distance ends at that distance in that direction, and intermediate points lie on the great circle at the requested fraction.',
     I, 'every pair of points, course and distance', 'Tests check some pairs; poles and date line are separate cases for each function.',
     ['spherical_geometry.py'], [('geometry', 'spherical_geometry.py')], EX, 'All ordered pairs of a lattice vs 3-D vector geometry; longitudes compared modulo 360.', 'exploration')
prop('C14', 'A sorted voyage is in time order; speeds and courses come from neighbours',
     'However reports are added and sorted, a voyage holds exactly the reports given, in time order once sorted, and each report\'s speed, course, distance and elapsed time are those from its current predecessor, the first having none. '
     'Speeds calculated over two steps, the mean speed and predicted positions follow from the same positions and times.',
     H, 'every sequence of additions and sorts', 'Tests add reports already in order.',
     ['Extended_IMMA.py', 'track_check.py'], [('voyage', 'Extended_IMMA.py Voyage add_report, sort, calc_alternate_speeds, predict_next_point')], MC,
     'All sequences over a pool of reports up to the bound.', 'model_checking', state=[('reps', 'reports of a voyage in order', 'Extended_IMMA.py Voyage.reps')])
prop('C15', 'A deck hands out every passing report exactly once, grouped by identifier',
     'Whatever was appended, sorted, removed, flagged or filtered before, iterating a deck platform by platform yields every report that passes the current filter exactly once, with its own identifier only, and in deck order. '
     'Appending, sorting and removing keep exactly the reports they should.',
     H, 'every sequence of deck operations', 'Tests iterate a deck just built.',
     ['Extended_IMMA.py'], [('deck', 'Extended_IMMA.py Deck')], MC, 'All operation sequences of the stated length out of 12 operations.', 'model_checking', state=[('reps, idtracker, filter', 'contents and index of a deck', 'Extended_IMMA.py Deck')])
prop('C16', 'The ship track check flags exactly the reports its criteria call for',
     'For a time-ordered voyage of a ship, each report\'s track flag and its few-reports flag follow from the documented speed, distance, course and midpoint criteria on its positions, times and reported motion, and short voyages, buoys, generic identifiers and exempt decks pass. '
     'In the repeated version every pass works on the reports not yet rejected, and a report once rejected stays rejected and no longer influences the others.',
     H, 'every voyage: positions, times, reported speed and course', 'Tests build a few straight tracks with one outlier.',
     ['Extended_IMMA.py', 'track_check.py'], [('track check', 'Extended_IMMA.py Voyage.track_check'), ('criteria', 'track_check.py')], MC,
     'All displacement vectors in the bound; voyages with a quantity within 1e-4 of a threshold are not judged.', 'model_checking')
prop('C17', 'Pairwise speed and spike checks remove the worst offender until none is left',
     'The pairwise track check and the spike check repeatedly reject the report that takes part in most violating pairs until no two remaining neighbouring reports violate the limits; exactly the reports so rejected are flagged. '
     'Voyages with too few reports pass, and reports with no value never count.',
     H, 'every voyage and every pattern of outliers', 'Tests have single outliers.',
     ['Extended_IMMA.py', 'qc.py'], [('iquam track check and spike check', 'Extended_IMMA.py Voyage.iquam_track_check, spike_check')], MC, 'All displacement/value/time assignments up to the bound.', 'model_checking')
prop('C18', 'Saturated runs, rounded and repeated values are flagged where they occur',
     'A report is flagged as part of a saturated run exactly if it lies in an unbroken run of saturated reports that is long enough in both number and time, and repeated or rounded values are flagged exactly where a value (or whole numbers) make up too large a part of a voyage with enough reports. '
     'Reports without the value are never counted nor flagged, and all others are unflagged.',
     I, 'every voyage and pattern of values', 'Tests have one run per voyage.',
     ['Extended_IMMA.py'], [('voyage checks', 'Extended_IMMA.py Voyage.find_saturated_runs, find_multiple_rounded_values, find_repeated_values')], EX, 'All patterns up to the bound; a rounded fraction exactly at the threshold is not judged (docstring and code differ).', 'exploration')
prop('C19', 'The buddy check compares each report with the average of its nearest neighbours',
     'A report is flagged exactly when its anomaly differs from the average of the neighbouring cells in the first non-empty neighbourhood by more than the multiple, set by the number of neighbours, of the local variability. '
     'Neighbourhoods wrap over the date line and the new year, widen in longitude towards the poles without counting a cell twice or reaching over the pole, exclude the report\'s own cell, and only reports that pass the filter take part.',
     I, 'every arrangement of reports on the globe and in time', 'Tests place a few reports in one neighbourhood.',
     ['Extended_IMMA.py'], [('grid and buddy check', 'Extended_IMMA.py Np_Super_Ob, Deck.mds_buddy_check')], EX, 'All scenarios of none, one or two neighbour cells from the offset alphabet; every latitude row for the neighbour search.', 'exploration')
prop('C20', 'Bayesian buddy check gives the posterior probability of gross error in tenths',
     'Each report\'s flag is its posterior probability of gross error, rounded down to a tenth, given the average of its neighbours and the uncertainty made up of measurement, within-cell and neighbour-average error, and only reports that pass the filter take part. '
     'The probabilities are proper: likelihoods over all possible values add up to one, results stay between 0 and 1 and never fall as a report moves away from its neighbours.',
     I, 'every arrangement of reports, fields of variability and parameters', 'Tests evaluate two or three probabilities.',
     ['Extended_IMMA.py', 'qc.py'], [('Bayesian buddy check', 'Extended_IMMA.py Deck.bayesian_buddy_check, Np_Super_Ob.get_new_buddy_limits'), ('probabilities', 'qc.py p_gross')], EX, 'All scenarios of the bound; probabilities within rounding of a tenth are not judged.', 'exploration')

prop('C21', 'Drifters aground are flagged from the report where they stopped moving on',
     'A drifting buoy\'s reports are flagged aground from the earliest report after which its smoothed position stays within the position tolerance for the required period up to the end of the record, and only those. '
     'The answer does not depend on where on the globe the buoy is, the date line included, and records that are too short or have bad times or positions are left unflagged.',
     I, 'every record of positions and times of a drifter', 'Tests are a dozen fixed records; smoothing windows, gaps and the date line combine freely.',
     ['trackqc.py', 'Extended_IMMA.py'], [('aground checks', 'trackqc.py aground_check, new_aground_check')], MC, 'All step sequences of the bound for both versions of the check.', 'model_checking')
prop('C22', 'Drifters picked up by ships are flagged where they move too fast',
     'A drifting buoy\'s reports are flagged as picked up exactly where the speed between reports far enough apart in time exceeds the limit, with the neighbouring reports the documented rule includes, and no others. '
     'Isolated position errors and gaps are treated as documented and records with bad times or positions are left unflagged.',
     I, 'every record of positions and times of a drifter', 'Tests are a dozen fixed records.',
     ['trackqc.py', 'Extended_IMMA.py'], [('speed checks', 'trackqc.py speed_check, new_speed_check')], MC, 'All displacement sequences of the bound for both versions of the check.', 'model_checking')
prop('C23', 'Bad stretches at the ends of a drifter record are flagged, the middle is not',
     'Reports at the start or end of a drifter record are flagged exactly as far in as the long-window and short-window statistics against the background stay outside the limits that follow from the stated errors. '
     'Reports that cannot be compared (day, ice, no or unreliable background, missing values) never enter a statistic and the flags are contiguous from the ends of the record.',
     I, 'every record of anomalies, background errors and usable or unusable reports', 'Tests are a few long records.',
     ['trackqc.py', 'Extended_IMMA.py'], [('tail check', 'trackqc.py sst_tail_check')], MC, 'All records of the bound over 5 and 9 kinds of report.', 'model_checking')
prop('C24', 'Biased, noisy and short drifter records are told apart by their statistics',
     'A drifter record of enough comparable reports is flagged as biased or noisy exactly when the mean or the scatter of its differences from the background is beyond the limits that follow from the stated errors, and a shorter one as bad exactly when enough single differences are. '
     'Reports that cannot be compared never count, and every report of a record carries the verdict of the record.',
     I, 'every record of anomalies, background errors and usable or unusable reports', 'Tests are a few fixed records.',
     ['trackqc.py', 'Extended_IMMA.py'], [('bias and noise check', 'trackqc.py sst_biased_noisy_check')], MC, 'All records of the bound over 5 and 10 kinds of report.', 'model_checking')
prop('C25', 'Drifter records are cut at the gaps and submitted as the run mode says',
     'For every pattern of months with and without data, the months with data are grouped into chunks separated by at least the requested gap, each chunk running from its first to its last month with data and classed by its distance from the start and end of the period. '
     'The tracking wrapper submits for every buoy exactly the chunks its run mode calls for, with their own identifier, dates, kinds and run label, and submits none while more than 250 of the user\'s jobs are in the queue.',
     ['histories', 'configurations'], 'every pattern of months with data, gap length and run mode', 'Tests try nine patterns with a gap of three.',
     ['YMCounter.py', 'Tracking_QC_wrapper.py'], [('chunks', 'YMCounter.py get_chunks, yield_start_and_end_dates'), ('submission', 'Tracking_QC_wrapper.py main, write_submission')], MC,
     'All patterns of 12 and 15 months; submission commands are recorded by stand-ins.', 'model_checking', state=[('counter', 'months with data', 'YMCounter.py')])
prop('C26', 'IMMA1 records are read field by field and written back unchanged',
     'Every field of every attachment of an IMMA1 record is read from its own columns with its own scale and encoding, blank columns as missing, whatever attachments the record has and wherever trailing blanks were cut off. '
     'Writing a record that was read gives the same text, and files of records are read one record per line without one record leaking into the next.',
     ['inputs', 'configurations'], 'every record: values of all fields, sets of attachments and lengths', 'No test reads or writes a record.',
     ['IMMA1.py'], [('reader and writer', 'IMMA1.py IMMA.readstr, write'), ('layout', 'IMMA1.py parameters, definitions')], EX, 'Every field value of the alphabet, every attachment subset, every cut, against an independent encoder.', 'exploration')
prop('C27', 'Simple, test and near-real-time lines are read column by column',
     'Every field of the simple fixed-column format, of split test lines and of near-real-time lines is read from its own column with its own scale, unreadable or missing fields as missing, for every content and length of the line. '
     'Nothing of an earlier line stays in the record, and a report can be made of the record with the same values.',
     I, 'every content of every field and every length of line', 'Tests use a few complete lines.',
     ['SimpleIMMA.py', 'TestIMMA.py', 'NRT.py'], [('readers', 'SimpleIMMA.py, TestIMMA.py, NRT.py readstr')], EX, 'Every field value of the alphabets, all cuts, all pairs of lines through one reader.', 'exploration')
prop('C28', 'Humidity variables follow from dew point, temperature and pressure',
     'Vapour pressure, specific and relative humidity, wet bulb temperature and dew point depression follow the cited formulas over water or, at a wet bulb at or below freezing, over ice, the inverse functions give back what they were given, and results are rounded to a tenth only when asked. '
     'On a report they are all missing whenever dew point, temperature or pressure normal is missing or the relative humidity is impossible, even if the report had values before.',
     I, 'every dew point, temperature and pressure, present or missing', 'Tests evaluate one example above freezing.',
     ['CalcHums.py', 'Extended_IMMA.py'], [('formulas', 'CalcHums.py'), ('report', 'Extended_IMMA.py calculate_humidity_variables')], EX,
     'Lattice of 0.1 degrees; formulas written anew from the cited papers.', 'exploration')
prop('C30', 'Resistant means leave out exactly the share of extremes they should',
     'The winsorised mean replaces exactly a quarter of the values at each end by the quartile values and the trimmed means and deviations leave out exactly the requested share at each end, for every number of values and every order of them. '
     'Lists too short to trim keep all their values.',
     I, 'every list of values, in every order, and every trimming share', 'Tests use two or three lists.',
     ['qc.py', 'trackqc.py'], [('means', 'qc.py winsorised_mean, trimmed_mean; trackqc.py trim_mean, trim_std')], EX, 'All lists of the bound.', 'exploration')

prop('C31', 'Input files are found and unpacked right in every state of the file system',
     'For a day the background field found is always a complete field of that day from the first place that has one, whatever files are absent, empty, packed, damaged or already unpacked, and whatever failed, crashed or ran at the same time while one was being unpacked. '
     'Monthly data files are the first that exist, names have the date filled in everywhere, the list of excluded IDs is padded to nine places without blank entries, and making folders keeps what is there.',
     ['faults', 'histories', 'schedules'], 'every state of the candidate files, failure and crash point of the unpacking, and interleaving of two processes', 'Tests need files that exist on one site only.',
     ['BackgroundField.py'], [('background field', 'BackgroundField.py get_background_filename'), ('monthly file', 'BackgroundField.py icoads_filename_from_stub'), ('folders', 'BackgroundField.py safe_make_dir')],
     'exhaustive enumeration of file system states, crash points and interleavings on the real code',
     'All states of two places; crashes after each of 4 blocks; all 70 interleavings of two processes. The unpacking command is a stand-in that works block by block.', 'fault_enumeration')

prop('C32', 'Output files hold exactly the reports of the month with their values and flags',
     'Every output file of a month holds one line for every report of that month and none of another, in the order of the collection, with the header that belongs to its columns, the values and anomalies of the report, its flags (nine where none was set) and backslash-N for what is missing. '
     'A standard CSV reader gets back the values and IDs written, file names are free of special characters, and a period without reports is no failure.',
     ['inputs', 'histories'], 'every collection of reports, values, missing values, dates and IDs', 'No test writes a file.',
     ['Extended_IMMA.py'], [('lines', 'Extended_IMMA.py print_variable_block, print_qc_block'), ('files', 'Extended_IMMA.py write_output, write_qc, write_tracking_output')], EX,
     'All collections of up to four reports of seven kinds; all pairs of values on single lines.', 'exploration')

prop('C33', 'The tracking program checks a buoy on complete files and writes one verdict each',
     'The tracking program reads the three files of every month of the period, refuses to go on and writes nothing when they are incomplete or do not belong together, and skips months without files. '
     'Every report read is written once with its values, basic flags and tracking flags: those of the aground, speed, tail and bias checks run one after the other on the reports in time order that passed the basic checks and the checks before, and nine for a report set aside; the case kinds decide the folders.',
     ['inputs', 'histories', 'configurations'], 'every state of the files, every record, order of reports, excluding flag and case kind', 'No test runs the program.',
     ['tracking_qc.py', 'Extended_IMMA.py', 'trackqc.py'], [('program', 'tracking_qc.py main'), ('folders', 'tracking_qc.py safe_make_tracking_dir, safe_make_edge_dir')], MC,
     'All states of a month of files; all records of five moves; all pairs of excluded reports; the real program run on real files.', 'model_checking',
     state=[('record', 'reports of one buoy with flags', 'tracking_qc.py rep_list')])

prop('C34', 'The main program gives every report of a month the flags the checks lay down',
     'For every month of the period the main program reads that month and those before and after it, leaves out excluded IDs, unreadable lines and reports of other months, and writes each remaining report of the month once, in order, with its values, anomalies and every flag. '
     'Each flag is what the checks lay down when run in turn: base checks, checks of each voyage on the reports that passed them, and buddy checks of each variable on the reports fit for it, with the neighbours from the months around; for tracking, each drifter of the month has files of its own with the background of the day before.',
     ['inputs', 'histories', 'faults'], 'every set of reports, in every state (missing, wrong, masked, blacklisted), files missing or damaged, parameters and order of lines', 'No test runs the program.',
     ['marine_qc.py', 'Extended_IMMA.py', 'qc.py', 'BackgroundField.py', 'Climatology.py'], [('program', 'marine_qc.py main'), ('checks', 'Extended_IMMA.py MarineReportQC, Voyage, Deck')], MC,
     'A reference of the whole chain; every pair of 47 kinds of reports as neighbours of a report, all subsets of files, all orders of lines, every parameter changed. Fields are stand-ins held in memory.', 'model_checking',
     state=[('collection', 'reports of three months with their flags', 'marine_qc.py reps')])
prop('C35', 'The fine-climatology and track-only programs give the flags the checks lay down',
     'The program with the fine climatology and the one for tracks only read the same files as the main program and give every report the flags of the checks they run, sea-surface temperature against the cell of the fine field or of the standard one, with the same neighbours, exclusions and months. '
     'The first writes the flags of all reports of the month and of each drifter under names of its own; the second writes drifters only.',
     ['inputs', 'histories', 'faults'], 'every set of reports in every state, files missing or damaged, parameters and order of lines', 'No test runs the programs.',
     ['marine_qc_hires.py', 'marine_qc_track_only.py', 'Extended_IMMA.py', 'Climatology.py'], [('programs', 'marine_qc_hires.py main; marine_qc_track_only.py main')], MC,
     'The exploration of C34 on these programs with the part of the reference they run.', 'model_checking',
     state=[('collection', 'reports of three months with their flags', 'marine_qc_hires.py reps; marine_qc_track_only.py reps')])

prop('C36', 'Every drifter report comes out of the three programs once, fully flagged',
     'When the main program, the submission program and the jobs it submits are run in a row on the input files of a period, every report of a drifter comes out of exactly the jobs that its months, the gap and the run mode call for, once, in time order, with the values of the input file, the background of the day before and all basic flags. '
     'Its tracking flags are those the aground, speed, tail and bias checks lay down for the whole chunk, whatever the identifier, the pattern of months, ships under the same identifier, missing backgrounds and whether the months are processed in one run or one by one.',
     ['inputs', 'histories', 'configurations', 'faults'], 'every pattern of months of the drifters, run mode, gap, identifier, set of backgrounds and record', 'No test runs the programs.',
     ['marine_qc.py', 'marine_qc_track_only.py', 'Tracking_QC_wrapper.py', 'YMCounter.py', 'tracking_qc.py', 'trackqc.py', 'Extended_IMMA.py'],
     [('programs', 'marine_qc.py main; marine_qc_track_only.py main; Tracking_QC_wrapper.py main; tracking_qc.py main')], MC,
     'Real input files to real tracking output; the scheduler and NetCDF fields are stand-ins; a reference of all checks.', 'model_checking',
     state=[('chunk', 'reports of one drifter with flags', 'tracking_qc.py rep_list')])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
            if len(p['title']) > 80 or p['statement'].count('. ') > 2:
                print('TOO LONG', p['id'], len(p['title']), p['title'])
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['_tech'], 'level': p['_level'], 'level_note': p['_note']}
                    for p in P if p['id'] not in [n[0] for n in NA]],
         'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
         'notes': 'No hooks in /repo. Replay one failure: ./run.sh Cxx --replay FILE. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
