"""Writes /verif/properties.jsonl"""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe or ['netCDF output files of a run'],
            'hook_needed': None}})


D, M, IO, T = ('metsim/disaggregate.py', 'metsim/metsim.py', 'metsim/io.py',
               'metsim/datetime.py')
MT, PT, PH, U = ('metsim/methods/mtclim.py', 'metsim/methods/passthrough.py',
                 'metsim/physics.py', 'metsim/units.py')
CLI = 'metsim/cli/ms.py'

prop('C01', 'Disaggregation neither creates nor loses precipitation',
     'The sub-daily precipitation of every day adds up to the daily forcing '
     'of that cell, for every scheme and time step; in UTC output the sum '
     'over the whole record is kept. No step has a negative amount, and dry '
     'days stay dry.',
     ['inputs', 'configurations'],
     'every daily series, scheme, peak time and duration, latitude, time '
     'step, output frequency and local or UTC time',
     'The tests compare one year of one cell with stored values to 3 % and '
     'never add up a day; mass is a law over all inputs and options.',
     [D, M], [('prec', D), ('wrap_run_cell', M)])
prop('C02', 'Precipitation is timed as its scheme prescribes',
     'Uniform precipitation is the same in every step of its day; triangular '
     "precipitation rises linearly to, and falls from, that month's peak "
     "time over that month's duration; mix uses the triangle on days whose "
     'minimum temperature is above freezing and uniform otherwise. The '
     "month is that of the day being simulated, and the cell's own "
     'parameters apply.',
     ['inputs', 'configurations'],
     'all months, peak times, durations, amounts, steps, schemes and '
     'temperatures around freezing',
     'No test checks a time of precipitation; one example runs the scheme '
     'in one month.',
     [D, M], [('prec_TRIANGLE', D), ('prec_UNIFORM', D),
              ('convert_monthly_param', M)])
prop('C03', "Sub-daily temperature follows the day's extremes",
     "Sub-daily temperature passes through the day's minimum at sunrise and "
     'the maximum at the configured fraction of the daylight, runs '
     'monotonically between them without overshoot, and never leaves the '
     "range of the neighbouring days' extremes.",
     ['inputs', 'configurations'],
     'all daily extremes, latitudes (polar day and night included), dates, '
     'steps and maximum-time fractions',
     'The tests compare one temperate cell with stored values to 3 %; '
     'polar days, jumps and other steps are never checked.',
     [D], [('set_min_max_hour', D), ('temp', D)])
prop('C04', 'Humidity and air pressure agree with temperature at every step',
     'At every step vapor pressure is positive and at most the saturation '
     'pressure of the temperature output for that step, relative and '
     'specific humidity are what vapor pressure, temperature and pressure '
     'imply, and air pressure follows from elevation and temperature.',
     ['inputs', 'configurations'],
     'all temperatures (both sides of freezing, jumps between days), '
     'elevations, latitudes, steps, methods, local and UTC time',
     'Tests look at stored values of one cell; consistency between outputs '
     'is asserted nowhere.',
     [D, PH], [('vapor_pressure', D), ('relative_humidity', D),
               ('specific_humidity', D), ('pressure', D), ('svp', PH)])
prop('C05', "Sub-daily shortwave keeps the day's energy and follows the sun",
     'The mean of a day\'s sub-daily shortwave equals the daily estimate, '
     'each step has the share of it that the sun\'s path over that step '
     'has, and steps without sun have none.',
     ['inputs', 'configurations'],
     'every latitude and day of the year, weather, step, averaging option, '
     'local and UTC time and longitude',
     'Tests cover one latitude, an hourly step and the sums of none of the '
     'days.',
     [D, PH, MT], [('shortwave', D), ('solar_geom', PH), ('shortwave', MT)])
prop('C06', 'Longwave radiation follows the configured emissivity schemes',
     'Every step\'s longwave radiation is the black-body radiation of that '
     'step\'s temperature times the configured clear-sky emissivity, '
     'corrected by the configured cloud scheme; option names are '
     'recognised in any capitalization.',
     ['inputs', 'configurations'],
     'every documented emissivity and cloud scheme, all temperatures, '
     'vapor pressures and cloud fractions',
     'One scheme is exercised by one stored series.',
     [D, M], [('longwave', D)])
prop('C07', "Daily output equals the MT-CLIM estimates for the cell's data",
     'Daily shortwave, cloud fraction, vapor pressure, potential '
     'evapotranspiration and day length are the documented MT-CLIM '
     "estimates computed from the cell's temperatures, precipitation, "
     'elevation, latitude, day of the year and options, and given '
     'temperatures, precipitation and wind come out as they went in.',
     ['inputs', 'configurations', 'histories'],
     'all weather histories including the 90 state days, latitudes, '
     'elevations, dates and tuning parameters',
     'The tests check that daily variables exist; their values are compared '
     'for one cell and one configuration.',
     [MT, PH, M], [('run', MT), ('tfmax', MT), ('pet', MT), ('tdew', MT),
                   ('calc_pet', PH), ('_aggregate_state', M)])
prop('C08', "Day length and radiation are those of the sun's path, anywhere",
     'For every latitude from pole to pole and every day of the year day '
     'length and potential radiation are those of astronomical geometry: '
     'defined, between 0 and 24 hours, varying continuously with latitude '
     'and correct in polar day and night and at their edges.',
     ['inputs'],
     'every latitude in [-90, 90] (dense near the polar-day edges), day of '
     'the year and elevation',
     'The tests use mid-latitudes only; the failing set is a thin band of '
     'latitude and date.',
     [PH, D, MT], [('solar_geom', PH), ('set_min_max_hour', D),
                   ('shortwave', D)])
prop('C09', 'UTC output is local-time output moved by the longitude',
     'With UTC output every value of a cell appears at its local-time step '
     'moved by the cell\'s offset from UTC, and longitudes that differ by '
     'full circles give the same output; without it longitude has no '
     'influence.',
     ['inputs', 'configurations'],
     'all longitudes (0..360 or -180..180 and beyond), steps, dates and '
     'weather',
     'One test compares the day-peak of a few longitudes at hourly steps.',
     [D, M], [('disaggregate', D), ('shortwave', D), ('prec', D),
              ('set_min_max_hour', D)])
prop('C10', 'Chunks, scheduler and number of workers do not change results',
     'A run split into any chunks along any dimensions, under any scheduler '
     'and number of workers, writes the same files with the same values '
     'everywhere as the run as a whole.',
     ['schedules', 'configurations', 'inputs'],
     'all chunk sizes along all, some or no dimensions, all schedulers, 1-4 '
     'workers and the interleavings they produce, masks, several output '
     'files, netCDF and in-memory input',
     'Tests compare nothing between chunkings; the interleaving of writers '
     'is random.',
     [M, IO], [('chunk_domain', M), ('run', M), ('write_chunk', M),
               ('wrap_run_slice', M), ('read_netcdf', IO)])
prop('C11', 'Every cell is computed from its own data, found by coordinates',
     'The output of a cell depends on nothing but that cell\'s forcing, '
     'state, domain values and the configuration: other cells\' data, their '
     'mask, and how the input arrays are ordered, extended or transposed '
     'have no influence, and masked cells stay empty.',
     ['inputs', 'configurations'],
     'all grids (lat-lon, lon-lat, list of units, rotated), masks, '
     'coordinate orders, extra cells and dimension orders',
     'One test checks the dimension names of one transposed domain.',
     [M, IO], [('run_slice', M), ('_unpack_state', M), ('read_domain', IO),
               ('read_netcdf', IO), ('write_chunk', M)])
prop('C12', 'The output files cover the requested period exactly once',
     'Taken together, the output files hold every time step from start to '
     'stop exactly once, in order, stamped as the period-beginning or '
     '-ending option says; each file holds one period of the output '
     'frequency, its name gives its first and last day, prefix and '
     'directory, and nothing of the record outside the period is used.',
     ['inputs', 'configurations', 'histories'],
     'every period within a longer record, way of giving start and stop, '
     'step, output frequency, prefix and directory, including one with '
     'files of earlier runs',
     'Tests run whole years with yearly files and look at one name.',
     [M, T, IO], [('_get_output_times', M), ('setup_output', M),
                  ('_get_output_filename', M), ('get_nc_output_suffix', M),
                  ('date_range', T), ('_validate_force_times', M)])
prop('C13', 'Values are in the units the file says, under the requested name',
     'Every output variable appears under the requested name in the '
     'requested documented unit (or the default one when none or an unknown '
     'one is asked for), the unit in the file is the unit the values are '
     'in, and the choice for one variable does not change any other.',
     ['inputs', 'configurations'],
     'every variable, documented unit, unknown unit, output name, subset of '
     'variables, daily and sub-daily',
     'One test converts a few variables once; the physical scale of the '
     'values is not checked.',
     [U, M, D], [('converters', U), ('_update_unit_attrs', M),
                 ('write_chunk', M)])
prop('C14', 'Runs in one process do not influence each other',
     'A model instance gives the same result whatever other instances with '
     'whatever configurations were created, run or failed before or in '
     'between in the same process.',
     ['histories', 'schedules'],
     'all interleavings of creating and running 2-4 instances with '
     'different configurations, some failing, some sharing objects',
     'Each test creates one instance and compares it with itself; the '
     'leaking state decides only in certain orders.',
     [M], [('MetSim.__init__', M), ('_update_unit_attrs', M)])
prop('C15', 'The same data give the same results in every input format',
     'The same daily data give the same output as netCDF, ASCII or binary '
     'files or an in-memory dataset, in one or many files, under other '
     'variable names, file and column orders, scale factors, time encodings '
     'and number types (to the precision of the format).',
     ['inputs', 'configurations'],
     'all data and encodings of the supported formats',
     'Tests check that each format runs; the results of two formats are '
     'never compared.',
     [IO, M, D], [('process_vic', IO), ('read_binary', IO),
                  ('read_ascii', IO), ('read_netcdf', IO),
                  ('read_data', IO)])
prop('C16', 'INI, YAML, command line and dictionary configure the same run',
     'A configuration written as INI or YAML, read through the reader or '
     'the command line, gives the same run as the same options given as a '
     'dictionary, whatever subset of options, order, comments and layout '
     'it has; options that are left out take their documented defaults.',
     ['configurations', 'inputs'],
     'all subsets and values of documented options in both file formats',
     'The tests read one INI and one YAML file.',
     [IO, CLI, M], [('read_ini_config', IO), ('read_yaml_config', IO),
                    ('check_config_type', IO), ('main', CLI)])
prop('C17', 'What cannot be run is refused, what is documented is accepted',
     'A run that cannot give right results - a bad option, missing file, '
     'variable or period, a state that does not precede the run, minimum '
     'above maximum temperature in any cell of any chunk - ends with an '
     'error, and every documented valid choice is accepted.',
     ['inputs', 'configurations', 'schedules'],
     'every option, file, variable, period and data item broken alone in '
     'otherwise valid runs, under every scheduler',
     'Tests run valid configurations only.',
     [M, IO, D], [('_validate_setup', M), ('_validate_force_times', M),
                  ('wrap_run_cell', M), ('process_vic', IO)])
prop('C18', 'A day depends on its own history; runs can be restarted',
     'A run continued from the state of the 90 preceding days gives what '
     'the uninterrupted run gives; what a day gets depends on no later '
     'weather and on no earlier weather than documented, and data outside '
     'the period do not matter.',
     ['histories', 'inputs'],
     'all weather histories, restart days and changes to earlier or later '
     'weather',
     'No test splits a run or changes a history.',
     [M, MT, IO], [('_aggregate_state', M), ('read_state', IO),
                   ('tfmax', MT), ('wrap_run_cell', M)])
prop('C19', 'A constant variable acts as a forcing field of that value',
     'A variable given as a constant acts exactly as a forcing field of '
     'that value in every cell and day, whether or not the forcing has the '
     'variable, in every input format, and changes nothing else.',
     ['inputs', 'configurations'],
     'every variable, value and number type, format, method, chunking and '
     'mask',
     'No test uses constants.',
     [M, IO], [('met_data', M), ('_validate_setup', M)])
prop('C20', 'Passthrough keeps the daily values it is given',
     'With passthrough the daily values supplied in the forcing come out '
     'unchanged and daily means of the sub-daily values equal them; what is '
     'not supplied is estimated as MT-CLIM would, and daily MT-CLIM output '
     'passed through gives MT-CLIM\'s sub-daily output.',
     ['inputs', 'configurations'],
     'every subset of supplied variables, radiation averaging, latitude, '
     'date and step',
     'One test passes one month of one variable through.',
     [PT, D, M], [('run', PT), ('shortwave', D), ('tskc', D),
                  ('vapor_pressure', D), ('longwave', D)])
prop('C21', 'Forcings without leap days are run on their own calendar',
     'A forcing on the noleap calendar gives output on that calendar: no 29 '
     'February in the state days, the run or the time axis, no day lost or '
     'doubled, and values that belong to their dates.',
     ['inputs', 'configurations'],
     'all periods on that calendar, in particular around the end of '
     'February of leap years, and all steps and output frequencies',
     'No test uses that calendar.',
     [T, M, IO], [('date_range', T), ('shift_days', T),
                  ('_get_output_times', M)])
prop('C22', 'Runs of different time steps agree with each other',
     'Runs that differ in the time step only agree: amounts add up, '
     'radiation averages, and temperature and what derives from it have '
     'the same value at the same instant.',
     ['inputs', 'configurations'],
     'all pairs of steps of which one is a multiple of the other, all '
     'schemes, weather, latitudes, local and UTC time',
     'Tests run single steps and compare none with another.',
     [D, M], [('disaggregate', D), ('shortwave', D), ('temp', D),
              ('prec', D)])
prop('C23', 'Every requested value is there, finite and physically possible',
     'A valid run gives, for every requested variable, every active cell '
     'and every step, a finite value within its physical bounds, and no '
     'value for masked cells.',
     ['inputs', 'configurations'],
     'ordinary to extreme weather over the whole globe, every option, '
     'subset of variables and mask',
     'Tests sample ordinary weather in one region.',
     [M, D, MT, PH], [('wrap_run_cell', M), ('write_chunk', M),
                      ('disaggregate', D), ('run', MT)])
prop('C24', 'A run is repeatable and leaves its inputs as they were',
     'Running again gives the same values bit for bit, over the output of '
     'the earlier run too; forcing, state and domain files, the '
     'configuration given and in-memory data are left unchanged, and '
     'single precision output is the rounded double precision output.',
     ['histories', 'inputs', 'configurations'],
     'repeated runs in all formats, configurations and precisions',
     'No test runs twice or compares its inputs before and after.',
     [M, IO], [('MetSim.__init__', M), ('setup_netcdf_output', M),
               ('write_chunk', M), ('read_state', IO)])
prop('C25', 'An interrupted or failed run is reported and can be repeated',
     'Whatever point a run is killed or meets an error at, it does not end '
     'as a success with wrong or incomplete output, and running it again '
     'into the same directory gives what an undisturbed run gives.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'every executed line of the package as the point of a kill or error, '
     'whole and chunked runs, several schedulers',
     'Tests never interrupt a run; the number of crash points is in the '
     'thousands per run.',
     [M, IO], [('run', M), ('setup_output', M), ('write_chunk', M),
               ('wrap_run_slice', M)])

prop('C26', 'Output says how it was made and opens as the result of its run',
     'Every output file records the options its run used, given or default, '
     'so that a run configured from the record repeats it; every variable '
     'has its unit and names; and open_output gives exactly the values and '
     'times of that run, whatever other files are in the directory.',
     ['inputs', 'configurations', 'histories'],
     'every option, with output in one file or many, into directories that '
     'hold files of earlier and of other runs',
     'Tests open the output of a few fresh directories and never look at '
     'what it says about its run.',
     [M], [('setup_netcdf_output', M), ('open_output', M),
           ('_get_output_filename', M)])

prop('C27', 'A run in memory over any part of the grid is that part of the whole',
     'Used as a library, a MetSim object that has loaded its inputs gives, '
     'in output, the values, times, coordinates and units that run writes '
     'to files, for the whole grid or the domain slice it was made for, '
     'each time run_slice is called, at any verbosity, whether or not the '
     'input files still exist and whatever other objects do.',
     ['inputs', 'configurations', 'histories'],
     'drawn rectangles of the grid, file and in-memory inputs, files that '
     'vanish or are replaced after loading, several objects in turn',
     'Tests only use run(); chunks make use of this interface for the '
     'whole grid, so an error in a slice shows as a shifted cell.',
     [M], [('load_inputs', M), ('run_slice', M), ('setup_output', M),
           ('MetSim.__init__', M)])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
