"""All properties: one entry each; gen.py writes properties.jsonl, MANIFEST.json and the property part of DESIGN.md from it."""
M = 'src/pyg2p/main/'
P = []


def p(pid, title, statement, over, text, why, files, mech, how, tech, note, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], how=how, tech=tech, note=note,
                  state=[dict(name=a, meaning=b) for a, b in state], observe=list(observe)))


p('P04', 'Missing cells of what is written or returned',
  'A cell of a PCRaster or netCDF map, or of a field the API returns, is missing if and only if the clone map is missing there or the interpolated (and corrected) field is: not a number, masked or with the missing value of the coordinate maps, whichever missing values the clone and coordinate maps have. '
  'Other cells have the value of the field, in the place of the target grid where it was interpolated.',
  ['configurations', 'inputs'], 'the three kinds of output, clone maps of either format with or without a missing value, with correction or not; every cell',
  'tests have clone and coordinate maps with one missing value, and fields with values everywhere',
  [M + 'writers/pcr.py', M + 'writers/netcdf.py', M + 'writers/__init__.py', M + 'api.py'],
  [('writers', M + 'writers/ PCRasterWriter.write, NetCDFWriter.write'), ('returned fields', M + 'api.py Pyg2pApi.execute')],
  'Executions of the three kinds are evaluated abstractly with interpolation and correction opaque; what reaches the band, the netCDF variable and the returned values is evaluated for one cell in every combination of clone map and field, with equal and different missing values. '
  'Operations that would put cells in other places are looked for on the way there.',
  'abstract interpretation, evaluation of the written expression over classes of cells',
  'values of netCDF packing are those of P31; a number of the field that equals a missing value is not told from a missing one',
  state=[('clone map', 'values and missing value'), ('field', 'interpolated or corrected')], observe=['cells of the written maps', 'values the API returns'])

p('P05', 'Processing steps run once each, in the documented order, on every field',
  'Every map written by an execution (PCRaster or netCDF) or returned by the API is obtained from fields read from GRIB by exactly the configured steps, once each, in this '
  'order: unit conversion, aggregation, cut-off of negative values, interpolation, correction; steps that are not configured are not applied. '
  'Without aggregation, the fields of both spatial resolutions and of both input files reach the output whatever else is configured.',
  ['configurations', 'inputs'], 'all combinations of conversion, cut-off, aggregation and correction switches, three outputs (PCRaster, netCDF, API), messages of one or two resolutions in one or two files',
  'a test executes one template with one combination of switches; the order must hold for each combination and for every message, also those of a second resolution',
  [M + 'controller.py', M + 'writers/__init__.py', M + 'api.py', 'src/pyg2p/__init__.py'],
  [('processing chain', M + 'controller.py Controller.execute'), ('writing', M + 'writers/__init__.py OutputWriter.write_maps'), ('API chain', M + 'api.py Pyg2pApi.execute')],
  'The three executions are evaluated abstractly with the five steps as opaque operations; the value written (argument of WriteArray, store into the netCDF variable) or returned is '
  'walked back through containers, comprehensions, loop-carried variables and guards to the fields decoded from GRIB, for each of the 16 switch combinations; each sequence of steps on the way must be the documented one.',
  'abstract interpretation to gated values, backward slice of written values with step sequences per configuration',
  'all 16 switch combinations times 3 sinks; steps are opaque (decided by P01, P02, P03, P25); path feasibility through gated conditions (BDD)')

p('P07', 'Command line options overwrite the template',
  'For every option that has a counterpart in the JSON template (start, end, data time, data date, member, first map number, extension step, prefix, scale factor, offset, valid range, value format, output step units, '
  'output format, tables and geopotentials folders), an execution uses the value given on the command line whenever the option is given, whatever the template contains, also when the value is 0 for numbers for which 0 is meaningful. '
  'When the option is not given, the value of the template is used where it has one.',
  ['configurations', 'inputs'], 'all argument vectors and all templates',
  'a test samples a few command lines; an option is silently ignored only for certain combinations of option value and template content (for example a value equal to the default)',
  [M + 'context.py'], [('merging', M + 'context.py ExecutionContext._define_exec_params'), ('options', M + 'context.py ExecutionContext.add_args')],
  'ExecutionContext is evaluated abstractly on an open argument vector and an open template; for each pair of option and template attribute the gated value of the setting, as its consumers read it, is compared under the conditions given/not given x present/absent.',
  'abstract interpretation of the context constructor, gated value comparison under decided conditions',
  'all options with template counterparts; argparse semantics (dest, default, type, action) modelled; values opaque')

p('P08', 'An API request means the same as the equivalent template and command line',
  'A request dictionary given to the API sets every execution setting from its documented key (top level keys of the request have precedence over the nested ones), with the same defaults as the command line execution (only the parallel computation of tables is on by default). '
  'Aggregation, conversion, correction and two-resolution processing are switched on exactly when the request configures them, and the conversion applied is the one with the requested id.',
  ['configurations', 'inputs'], 'all request dictionaries',
  'tests build a handful of requests; a key that is read from the wrong place or a default that differs is visible only for requests that contain it',
  [M + 'api.py', M + 'context.py'], [('request', M + 'api.py ApiContext._define_exec_params'), ('checks', M + 'context.py Context._check_exec_params')],
  'ApiContext is evaluated abstractly on an open dictionary; each setting is compared, under present/absent decisions for each documented key, with the key path and default it must come from.',
  'abstract interpretation of the request constructor, gated value comparison against the documented key table',
  'the documented keys of the request; values opaque; conversions of type are accepted')

p('P35', 'Template attributes reach the settings they document, with documented defaults',
  'Every documented attribute of the JSON template sets the execution setting it documents, and a missing attribute gives the documented default. '
  'Aggregation, conversion and correction are switched on exactly when the template configures them, and the conversion applied (function, unit, cut-off) is the entry of the parameter with the requested id.',
  ['configurations', 'inputs'], 'all templates',
  'a test uses a few templates; an attribute that is dropped, read from another place or given another default shows only with templates that use it',
  [M + 'context.py', M + 'config.py'], [('template', M + 'context.py ExecutionContext._define_exec_params'), ('conversion lookup', M + 'config.py ParametersConfiguration.get_conversion')],
  'ExecutionContext is evaluated abstractly on an open template with no optional command line option; each setting is compared, under present/absent decisions for each attribute, with the attribute path and the documented default.',
  'abstract interpretation of the context constructor, gated value comparison against the documented attribute table',
  'the attributes documented in README; values opaque')

p('P06', 'Fields of each resolution are processed with the grid of their own resolution',
  'When the fields of an execution have two spatial resolutions (in one file or from a second file), every field is interpolated and corrected with the coordinates, the grid id and the grid details of its own resolution. '
  'Processing starts with the first grid and, at the first field of the second resolution, switches coordinates, grid id and grid details (and the correction grid) together, never back. '
  'Interpolation tables of the GRIB based modes are made from a message of the grid they are for.',
  ['configurations', 'inputs'], 'all step ranges, positions of the change of resolution, three executions, with and without correction and aggregation',
  'the change of resolution happens at a step and in a combination that a test samples once or twice; a value of the wrong grid gives plausible, shifted maps',
  [M + 'controller.py', M + 'api.py', M + 'readers/grib.py'],
  [('change of resolution', M + 'controller.py Controller.second_res_manager'), ('reading of resolutions', M + 'readers/grib.py GRIBReader.get_values, get_grib_info'), ('API', M + 'api.py Pyg2pApi.execute')],
  'The executions are evaluated abstractly over marked messages of two resolutions; every argument of the interpolation and correction is traced back to the message its grid comes from and compared, under the conditions on the step, with the resolution of the field.',
  'abstract interpretation over marked inputs; provenance of call arguments per path condition',
  'PCRaster, netCDF and API executions; second resolution in the same file or in a second input file; steps are compared symbolically')

p('P10', 'The exit status tells whether the execution succeeded',
  'The exit status of the program is 0 exactly when the execution succeeded or found no messages to process. '
  'Every other failure (application errors with any other code, any exception) gives a nonzero status or propagates, through each entry point (installed script, source script, run_command, Command.run), '
  'and the resources of the execution are closed in all cases.',
  ['configurations', 'fault_sequences'], 'all failures at any point of the program',
  'a test provokes a few failures; a handler that swallows an exception shows only when that failure happens at that point',
  [M + '__init__.py', 'src/pyg2p/__init__.py', 'bin/pyg2p', 'src/pyg2p.py'],
  [('program', M + '__init__.py pyg2p_exe'), ('API commands', 'src/pyg2p/__init__.py Command.run, run_command'), ('scripts', 'bin/pyg2p')],
  'The program is evaluated abstractly with failures (application error with any code, any other exception) possible at each of its operations; the gated return value is compared under each.',
  'abstract interpretation with exceptional paths, gated return value per injected failure',
  'failures may happen in the construction of configuration and context, in the execution and in logging; argparse itself exits with its own status')

p('P20', 'Output maps are written in order of end step under the documented names',
  'Processed fields are written or returned in increasing order of their end step, and returned under their own step. '
  'The PCRaster map of the n-th field is the file in the output directory named prefix, zeros up to 11 characters, and the number (first map number plus n times the extension step), cut as 8.3, '
  'and is written through the dataset created for that very file; the netCDF output is one file prefix_aggregationtype.nc created anew in the output directory, in which time position n holds the n-th field.',
  ['configurations', 'inputs'], 'all numbers of fields, first numbers and extension steps',
  'a test writes a few maps; off-by-one numbering, orders that depend on reading order and name collisions show with other counts',
  [M + 'writers/__init__.py', M + 'writers/pcraster.py', M + 'writers/netcdf.py', M + 'controller.py', M + 'api.py'],
  [('names', M + 'writers/__init__.py'), ('netCDF positions', M + 'writers/netcdf.py NetCDFWriter.write'), ('order', M + 'controller.py Controller.execute')],
  'File names and positions are evaluated to a normal form: text pieces with numbers as polynomials over the position of the loop that writes; loops are resolved to the order of the container they run over and that to its sort key.',
  'abstract interpretation with a normal form of texts and loop positions',
  'arithmetic of names is exact; PCRaster and netCDF file formats themselves are outside')

p('P23', 'Wrong input is refused with its documented error before anything is processed',
  'Missing files (template, GRIB input, latitude and longitude maps, clone map, elevation map when correction is on; a folder in place of a file included), an unknown interpolation mode, a non-numeric level, '
  'a start step after the end step, an unknown parameter, an unknown conversion id and a missing input file option are refused with the documented error code. '
  'No such refusal happens otherwise, the nine documented interpolation modes are all accepted, and nothing is read from GRIB or written before the refusal.',
  ['configurations', 'inputs'], 'all templates, requests and command lines',
  'each refusal depends on a combination of settings; tests provoke some of them in one context, while wrong acceptance or refusal elsewhere is not seen',
  [M + 'context.py', M + 'api.py', M + 'config.py', M + 'controller.py', M + 'exceptions.py'],
  [('checks', M + 'context.py Context._check_exec_params'), ('templates', M + 'context.py ExecutionContext._define_exec_params'), ('parameters', M + 'config.py ParametersConfiguration')],
  'Both contexts are evaluated abstractly on open settings; the path condition of each raised error, restricted to worlds in which exactly one fault (or none) is present, must be satisfied or impossible, and no effect may be reachable before it.',
  'abstract interpretation with path conditions of raises (BDD), restricted per fault',
  'one fault at a time; file existence is an opaque predicate per path')

p('P24', 'Configuration commands -g, -W and -K do what they document and nothing else',
  'The options -g, -W and -K reach the registration of a geopotential, the download of a dataset and the check of the configuration with their value, exactly when passed; they need no template, and no execution starts. '
  '-g copies the file into the user folder for geopotentials; -W retrieves the files of the remote folder of the dataset, as binary and under their names, into the user folder for that dataset; '
  '-K drops from the user configuration exactly the tables whose file does not exist in the user folder, saves it, and removes no file.',
  ['configurations', 'histories'], 'all argument vectors and contents of user folders',
  'the commands touch the user configuration and network and are not tested; their effects depend on the content of folders',
  [M + '__init__.py', M + 'context.py', M + 'config.py', M + 'controller.py'],
  [('program', M + '__init__.py pyg2p_exe'), ('commands', M + 'config.py Configuration')],
  'The program is evaluated abstractly from the argument vector with each command passed; reached operations, paths of copies, downloads, deletions and the saved mapping are compared with the documented effect.',
  'abstract interpretation of the program, effect analysis (files, ftp, configuration) per command',
  'completeness of a download is outside (network); ftp and file operations are opaque')

p('P09', 'Output maps have the geometry and description of the target grid and parameter',
  'The netCDF output holds a variable named after the prefix over time (unlimited), lat and lon, as long as the rows and columns of the clone map, with the description and the unit of the parameter; '
  'its coordinate variables lat and lon, with CF names and units, are taken from the latitude and longitude maps (a column of the one, a row of the other; PCRaster or netCDF). '
  'PCRaster maps are written into a copy of the clone map, in its first band, with the nodata value of the clone map.',
  ['configurations', 'inputs'], 'all target maps, parameters and prefixes, PCRaster and netCDF coordinate maps',
  'exchanged axes or coordinates show on grids that are not square or symmetric; the writers have no unit test on attributes',
  [M + 'writers/netcdf.py', M + 'writers/pcraster.py', M + 'readers/pcr.py', M + 'readers/netcdf.py', M + 'controller.py'],
  [('netCDF', M + 'writers/netcdf.py NetCDFWriter'), ('PCRaster', M + 'writers/pcraster.py PCRasterWriter')],
  'The executions are evaluated abstractly; names, dimensions, attributes and coordinate values handed to the netCDF and GDAL libraries are traced back to the settings and maps they come from and compared.',
  'abstract interpretation with provenance of library call arguments',
  'the target grid is assumed regular (one row/column gives the axis); file formats are outside')

p('P21', 'The netCDF time axis gives the valid time of each field',
  'Time position n of the netCDF output holds the end step of the n-th field, converted from the step unit of the messages to the unit of the axis; the unit of the axis is the requested one when both are documented units (seconds to days), else that of the messages. '
  'The axis has the attribute "<unit> since <date and time of the messages>", for every data time of messages, and numbers that need not be whole are not stored as integers.',
  ['configurations', 'inputs'], 'all pairs of input and output units, data dates and times, steps',
  'each pair of units and each data time is its own case; tests read one file with hourly steps',
  [M + 'writers/netcdf.py', M + 'readers/grib.py', M + 'controller.py', M + 'context.py'],
  [('axis', M + 'writers/netcdf.py NetCDFWriter'), ('units and date', M + 'readers/grib.py GRIBReader.get_main_aux, GRIBInfo')],
  'The execution is evaluated abstractly for each pair of units and data time; the stored numbers are compared, as exact ratios, with end step times unit ratio, and the text of the unit with unit name and reference date.',
  'abstract interpretation with exact ratio normal form, enumeration of documented units and data times',
  'the date is that of the messages read; netCDF calendar arithmetic is outside')

p('P31', 'netCDF packing attributes are consistent with the stored values',
  'The variable of maps has the scale factor and offset of the settings, valid minimum and maximum (0 included) packed with them exactly when set, the type of the setting (else doubles), '
  'and the default fill value of that type as fill and missing value; missing cells are given the value that packs to it. These attributes are set before values are stored and automatic packing stays on.',
  ['configurations'], 'all combinations of packing settings of a template',
  'the attributes interact (order, type, scale); tests use few templates and do not read packed values back',
  [M + 'writers/netcdf.py', M + 'context.py'],
  [('packing', M + 'writers/netcdf.py NetCDFWriter')],
  'The netCDF execution is evaluated abstractly on open settings; attribute values and replaced cells are compared with the packed settings in an exact normal form, and their events ordered before stores.',
  'abstract interpretation with normal form of packing arithmetic and event order',
  'rounding of the packed value by the netCDF library is outside')

p('P01', 'Aggregated fields are missing wherever a field they are computed from is missing',
  'A cell that is missing in a message is missing in every aggregated field computed from that message: accumulated differences, averages with and without half weights, instantaneous fields, '
  'and the messages interpolated on the way.',
  ['inputs', 'configurations'], 'all messages and masks, all aggregation types, step types, steps and options',
  'the arithmetic is done by a library that ignores masks, so each result must be masked again with every operand; tests use fields without missing cells',
  [M + 'manipulation/aggregator.py', 'src/pyg2p/util/numeric.py'],
  [('aggregations', M + 'manipulation/aggregator.py Aggregator'), ('masks', 'src/pyg2p/util/numeric.py get_masks')],
  'Each aggregation is evaluated abstractly; for every stored array the set of messages its values are computed from and the set whose masks it carries are derived, through loops and containers, per path condition, and compared.',
  'dataflow analysis (value and mask provenance) over gated values and loop summaries',
  'missing cells of messages are masked by the reader; operations that are not known raise no alarm but stop the check')

p('P28', 'Aggregations compute the documented values for every period',
  'Accumulation gives, for each aggregation step up to the end step, (value at its end - value at its start) * unit time / aggregation step, where the value of a step without message is the linear interpolation between the messages before and after it, '
  'and zeros at step 0 when that message is missing or a zero array is forced. '
  'Average sums the message of each step of the period (the next message for a step without one) with equal weights, or with half weights the messages of the period with its first and last step at half the weight of the others, and divides by the sum of the weights. '
  'Instantaneous fields are the message of their step, or the next one (zeros at step 0); fields cover one aggregation step each, the first accumulated or averaged one ending at the start step (the first aggregation step when the start step is 0).',
  ['inputs', 'configurations'], 'all steps of messages, start, end and aggregation steps, units and options',
  'wrong weights, neighbours or periods show only for combinations of message steps and aggregation steps that are not sampled',
  [M + 'manipulation/aggregator.py'],
  [('aggregations', M + 'manipulation/aggregator.py Aggregator._accumulation, _average, _instantaneous')],
  'Each aggregation is evaluated abstractly; stored fields, interpolated messages, sums and weights are brought to rational functions over messages named by the polynomial of their step, per path condition, and compared with the documented formula.',
  'abstract interpretation with a rational-function normal form, loop summaries for sums',
  'steps of messages are distinct and start step is 0 or at least an aggregation step; the first instantaneous step is not documented and not decided')

p('P02', 'Conversion and cut-off change exactly the cells they must',
  'Unit conversion gives function(value) for every cell that is not missing, with the configured function, and missing cells (masked, or holding the missing value of the messages) stay missing. '
  'The cut-off sets negative cells to 0, keeps all other values and the missing cells, and is applied to the fields of all steps.',
  ['inputs', 'configurations'], 'all fields and masks, all conversion functions of the configuration',
  'functions are expressions of the configuration evaluated by a library that ignores masks; tests convert a few values without missing cells',
  [M + 'manipulation/conversion.py', M + 'controller.py', 'src/pyg2p/__init__.py'],
  [('conversion', M + 'manipulation/conversion.py Converter.convert'), ('cut-off', M + 'manipulation/conversion.py Converter.cut_off_negative')],
  'The conversion is evaluated abstractly for every configured function; the resulting array expression is evaluated for one cell in each possible state (masked, missing value, positive, negative) with exact arithmetic and compared.',
  'abstract interpretation, case analysis of a generic cell',
  'values of cells that are not missing are assumed different from the missing value')

p('P25', 'Correction changes exactly the cells with value, elevation and geopotential',
  'A corrected cell is the configured correction formula of the interpolated value, the elevation and the resampled gem value of that cell when all three are there, and missing otherwise. '
  'The gem values are the configured gem formula of the geopotential message of the grid, where that is not missing, interpolated onto the target with the table of that grid.',
  ['inputs', 'configurations'], 'all fields, masks, elevation maps and geopotential messages; several formulas, both kinds of interpolation',
  'missing values have a different representation in each of the inputs; tests only correct with full maps',
  [M + 'manipulation/correction.py', M + 'readers/grib.py', M + 'readers/pcr.py'],
  [('correction', M + 'manipulation/correction.py Corrector.correct'), ('geopotential', M + 'manipulation/correction.py Corrector')],
  'The corrector is built and applied abstractly; the array expression of its result is evaluated for one cell in each combination of states (masked, each missing value, a value) of its three inputs, with exact arithmetic, and compared with the formula.',
  'abstract interpretation, case analysis of a generic cell',
  'formulas are samples of those the configuration can hold; values of cells that are not missing are assumed different from the missing values')

p('P26', 'Executions in one process do not influence each other',
  'An execution gives the same results whatever was executed before in the same process. What is kept for later executions (interpolation tables, corrections, configurations) is taken up again only when everything it was made from is the same: a correction with its formulas, elevation map, geopotential, grid and all interpolation settings, a table with the path of its file. '
  'What is kept is not changed once it is there, and no setting of the process is changed.',
  ['histories', 'configurations', 'inputs'], 'all pairs of settings of successive executions; every store into objects that outlive an execution',
  'it shows with a second execution of other settings in the same process; tests start with fresh objects',
  [M + 'manipulation/correction.py', M + 'interpolation/__init__.py', M + 'config.py', M + 'context.py', M + 'api.py'],
  [('corrections', M + 'manipulation/correction.py Corrector'), ('tables', M + 'interpolation/__init__.py Interpolator'), ('configuration', M + 'config.py GlobalConf')],
  'All components are evaluated abstractly; every store into an attribute of a class, a module variable or a default value of a parameter is followed to what is stored, the inputs it depends on and the key it is kept under. Objects kept are followed to later changes.',
  'effect analysis with dependence of kept values on inputs (abstract interpretation)',
  'maps, tables and geopotential files are taken to be unchanged by others while the process runs; log handlers are not looked at',
  state=[('kept objects', 'corrections, interpolation tables and the global configuration, kept by their classes for the process')])

p('P32', 'A command built with the API stands for the command line it shows',
  'A Command made from a string of arguments (with or without the name of the program, with parameters to fill in) and the with_ methods runs the program with exactly these options, each once with its value or as a flag, those set later in place of earlier ones. '
  'It adds -A and, where no log level is given, -l ERROR, and returns the status of the program; each method returns the command and sets the option of the program that it is named after.',
  ['configurations', 'inputs'], 'all orders of up to two options and many of three of nine kinds (value, flag, negative number, with =, more blanks, option-like values), every method after three kinds of commands',
  'tests build two commands; an option lost, repeated or taken for a value is only visible with others',
  [M + 'api.py', 'src/pyg2p/util/strings.py', M + 'context.py'],
  [('commands', M + 'api.py Command'), ('arguments', 'src/pyg2p/util/strings.py to_argdict'), ('options', M + 'context.py ExecutionContext')],
  'Commands are evaluated abstractly with constant propagation through splitting, rendering and splitting again, loops over the words unrolled, to the argument list given to the program; options set by methods are compared with those its parser declares.',
  'abstract interpretation with constant propagation, table comparison with the parser',
  'values without blanks, quotes and =; one known finding: with_log_dir sets -d, which is no option of the program',
  state=[('command', 'options and values')], observe=['arguments the program is run with', 'status'])
p('P18', 'Executions write only their outputs and never change their inputs',
  'Loading the configuration and running an execution, from the command line or through the API, creates or writes nothing but files under the configured output folder, interpolation tables under the tables folder of the user, '
  'and configuration files under the home of the user. A request of the API writes no output maps. '
  'Input GRIB files, the clone, latitude, longitude and DEM maps, the template and shared (global) tables and configurations are only ever opened for reading; nothing is deleted or moved, and no other program is started.',
  ['configurations', 'inputs', 'histories'], 'all options, templates, requests, configurations and contents of folders',
  'a run that rewrites a clone map, an input or a table shared by other users ruins every later run, not the one a test looks at; tests compare only the maps that were written',
  [M + 'context.py', M + 'config.py', M + 'controller.py', M + 'writers/pcr.py', M + 'writers/netcdf.py', M + 'readers/grib.py', M + 'interpolation/__init__.py', M + 'manipulation/correction.py'],
  [('outputs', M + 'writers/pcr.py PCRasterWriter.write'), ('tables', M + 'interpolation/__init__.py Interpolator'), ('output folder', M + 'context.py Context')],
  'Configuration, contexts, executions of the three kinds, interpolation in every mode, corrections and reading are evaluated abstractly; every call that creates, writes, moves or deletes is collected, and the paths it can be given are followed to the setting or folder they start with.',
  'abstract interpretation, effect analysis: provenance of the paths of calls that change files',
  'registration of geopotentials is decided by P34 and downloads by P24; names put after a folder are taken not to lead out of it; log files are left to the logging configuration')

p('P34', 'Geopotential files are registered once and looked up in the documented order',
  'Registering a file is refused, with nothing copied or saved, when its grid or its name is registered (user or global configuration) or the user folder is undefined, missing or not writable; otherwise the file is copied into that folder '
  'and then its grid is saved with its name next to the existing user entries. Removing a file drops no other entry. '
  'Correction uses the input file when it has a geopotential message, else the registered file of the grid in the first of the given, user and global folders that has it, else an error.',
  ['configurations', 'inputs', 'histories'], 'all user and global configurations, folders, files and options',
  'the registry outlives the process and a wrong entry silently corrects later runs with the geopotential of another grid; tests never register a file',
  [M + 'config.py', M + 'context.py', M + 'controller.py'],
  [('registry', M + 'config.py GeopotentialsConfiguration'), ('source of an execution', M + 'context.py geo_file')],
  'Registering, removing and looking up are evaluated abstractly on open configurations and file systems; under each state of registry and folders the conditions of copying, saving, refusing and the file used are compared with the documentation.',
  'abstract interpretation, conditions of effects per state of registry and folders',
  'files are regular files and folders are folders; concurrent registrations are not decided')

p('P16', 'Configuration of the user completes and overrides the global one',
  'Parameters, geopotentials, interpolation tables and FTP settings are the items of the user file, and the global ones for keys it does not have; reading them never overwrites an existing user file nor saves global items in it, and an invalid file is refused. '
  'Every name=value line of every .conf file defines a variable with all of the text after the first separator; variables in the map paths of the template (clone, coordinates, elevation, CDD) are replaced by their values, undefined ones are refused. '
  'Parameters and conversions are those of the requested name and id, unknown ones are refused.',
  ['configurations'], 'all user folders, configuration files and templates',
  'configuration files live across runs and users; tests use one fixed configuration',
  [M + 'config.py', M + 'context.py', M + 'api.py'],
  [('configuration', M + 'config.py BaseConfiguration, UserConfiguration, ParametersConfiguration')],
  'The configuration is built abstractly over open folders and files; layers of the merged items, guards and contents of saved files, parsed lines (loop summaries), and map paths of an execution are compared with the documentation.',
  'abstract interpretation, provenance of mapping layers and path settings',
  'malformed lines without separator and FTP downloads are not decided')

p('P13', 'Interpolation tables are created only where and when asked for',
  'An interpolation table is computed and saved only when -B is given and the folder for tables of the user is defined, exists and is writable; otherwise the execution is refused with the documented error and nothing is written. '
  'The table goes to the folder of the user and never replaces a table file that exists; it is saved once, under the registered name if the grid has one and under a new name otherwise. '
  'A saved table is registered, and nothing is registered that was not saved before.',
  ['configurations', 'inputs', 'fault_sequences'], 'all interpolation modes, both resolutions, all states of registry, folders and files',
  'tables cost hours to compute and are shared by users; tests run with prepared tables only',
  [M + 'interpolation/__init__.py', M + 'config.py'],
  [('creation of tables', M + 'interpolation/__init__.py Interpolator.interpolate, update_intertable_conf')],
  'One interpolation per mode is evaluated abstractly on an open registry and open folders; the guards of every computation and write of a table and of the registry are decided for every state of option, folders, registry and files.',
  'abstract interpretation with guard diagrams, effect analysis of file writes over an enumerated state space',
  'races between processes are not decided',
  state=[('registry', 'entries of user and global intertables.json'), ('table files', 'files in the folders of the user and the shared one'), ('folders', 'defined, existing, writable')], observe=['table files', 'registry', 'error codes'])

p('P15', 'A table is registered under the identity it will be looked up with',
  'A new interpolation table is registered under the very identity that was looked up, with the name of the file that was saved, and the next message of the same execution finds it. '
  'The identity is made of the source grid (type, number of values, rows, columns, longitudes), the coordinates of the target (origin, cell size, range of values) and the method, so that grids, targets or methods differing in one of these parts never share a table. '
  'A new table never takes the file name of another registered table.',
  ['configurations', 'inputs', 'histories'], 'all grids, target maps and interpolation modes',
  'a collision of identities gives plausible but wrong maps; tests use few grids',
  [M + 'interpolation/__init__.py', M + 'config.py', 'src/pyg2p/__init__.py', M + 'readers/pcr.py', M + 'readers/netcdf.py'],
  [('identities of tables', M + 'interpolation/__init__.py Interpolator.interpolate, GribGridDetails.grid_id, PCRasterReader.identifier, NetCDFReader.identifier')],
  'Identities of grids and maps are evaluated for open inputs and decomposed into their parts; the identity looked up, the one registered, the registered name and the saved path are compared in every mode, over one and two messages.',
  'abstract interpretation, structural comparison of identity terms and registry updates',
  'latitudes of the grid and number of rows and columns of the target are not in the identity, and coordinates of the target are cut (known findings); pole of rotated grids is not decided',
  state=[('registry', 'entries of user and global intertables.json')], observe=['registry', 'table files'])

p('P17', 'The table that is used is the registered one',
  'For a registered grid, target and method the table that is read is the registered file in the folder of the user if it is there, otherwise the one in the shared folder, gzipped or not; nothing is then written or refused. '
  'A table file is never read for a grid that is not registered. '
  'When no table is there and -B was not given the execution stops with error 8100, in every interpolation mode, for both resolutions, and nothing is written.',
  ['configurations', 'inputs'], 'all interpolation modes and states of registry, folders and table files',
  'tests run with one layout of the folders only',
  [M + 'interpolation/__init__.py', M + 'config.py'],
  [('lookup of tables', M + 'interpolation/__init__.py Interpolator.interpolate')],
  'One interpolation per mode is evaluated abstractly on open registry and folders; every combination of registered, file in the folder of the user, file in the shared folder, gzipped, -B decides the conditions of every read and write.',
  'abstract interpretation with guard diagrams, exhaustive enumeration of file states on the guards',
  'table files that vanish between test and use are not decided',
  state=[('registry', 'entries of user and global intertables.json'), ('table files', 'files in the folders of the user and the shared one')], observe=['table files read', 'error codes'])

p('P14', 'A saved table gives the field of the execution that created it',
  'In every interpolation mode, interpolating with the table read from its file, gzipped or not, from either folder, or with the table kept in memory, gives the very field that the execution which created the table got from the same message. '
  'A table kept in memory is the one of its file. '
  'Tables of the GRIB methods are computed from the message being interpolated, or from the auxiliary message of the same resolution when no message is at hand, for the latitudes and longitudes of the target.',
  ['configurations', 'inputs', 'histories'], 'all interpolation modes, fields and tables, both resolutions',
  'creation and use of a table usually happen in different executions, months apart; tests compare few modes',
  [M + 'interpolation/__init__.py', M + 'interpolation/grib_interpolation_lib.py'],
  [('tables', M + 'interpolation/__init__.py Interpolator.interpolate')],
  'The fields of one interpolation at creation, with a table in a file and with one in memory are evaluated abstractly as terms over the same open inputs; the table read is replaced by the saved term, parts are selected, and the terms compared structurally.',
  'abstract interpretation, round trip by term rewriting',
  'rounding by the file format and other types of saved arrays are not decided',
  state=[('registry', 'entries of user and global intertables.json'), ('table files', 'files in the folders of the user and the shared one'), ('memory', 'tables loaded by the process')], observe=['interpolated field'])

p('P19', 'Tables made with the GRIB library are aligned and weighted right',
  'In a table of the GRIB nearest and inverse distance methods every target cell that has coordinates, and for which the library finds points, appears once: its row, its column and the indexes and weights of the points found at its own latitude and longitude; cells without are in no part. '
  'Weights of inverse distance are 1/distance divided by the sum over the four points, and a point at distance 0 gets the whole weight. '
  'Parallel computation (-X) gives the same table as the serial one, for targets of any size.',
  ['inputs'], 'all targets (any size, cells without coordinates), failures of the search, and combinations of zero distances',
  'tests interpolate whole small fields in one mode; shifted tables show only with cells that fail',
  [M + 'interpolation/grib_interpolation_lib.py'],
  [('grib_nearest and grib_invdist', M + 'interpolation/grib_interpolation_lib.py'), ('grib_nearest_parallel and grib_invdist_parallel', M + 'interpolation/grib_interpolation_lib.py')],
  'The four computations are evaluated abstractly on open targets; loops over cells, chunks of the dask bag and filtered arrays are summarised to what one generic cell contributes to each part and under which condition. Conditions of parts are compared as guard diagrams, weights as rational functions of the four distances.',
  'abstract interpretation, per-cell summaries of loops and array filters, comparison of guard diagrams and of rational functions, interval analysis of divisors, typestate of the scheduler settings',
  'indexes and distances returned by the GRIB library are trusted; rounding is not decided',
  state=[('target', 'latitudes and longitudes of the cells')], observe=['parts of the table'])

p('P27', 'An interpolated cell is the weighted sum of its source points or missing',
  'In every interpolation mode a target cell with an entry in the table is the sum of weight times value of the source points of its entry (the value itself for nearest neighbours), at the row and column of the entry. '
  'The cell is missing when any point of its entry is missing in the source field, when the entry has no points or weights, and when the cell has no entry. '
  'Data hidden under the mask of a source field never shows in the interpolated field.',
  ['configurations', 'inputs'], 'all interpolation modes; source fields with and without mask, any point of the entry missing, cells without entry, points or weights',
  'tests interpolate fields without missing values and check the shape only',
  [M + 'interpolation/__init__.py', 'src/pyg2p/util/numeric.py'],
  [('use of tables', M + 'interpolation/__init__.py Interpolator.interpolate')],
  'The field of one interpolation per mode is evaluated abstractly as a term over table and source field; the term is then evaluated for one generic cell in every state of its entry and of its source points, loops over the neighbours unrolled, and compared with the weighted sum as a rational function.',
  'abstract interpretation, per-cell abstract evaluation of masked array terms, comparison of rational functions',
  'how weights of the scipy modes are computed is not part of this property; not a number counts as missing, as for writers and API',
  state=[('source field', 'values, with or without mask'), ('table', 'entries of the cells')], observe=['interpolated field'])

p('P36', 'Target maps are read as they are: values, missing value, coordinates',
  'Of a netCDF map, the first variable with two dimensions is used (a map without one is refused): its stored values, unchanged, and as missing value its missing_value, else its _FillValue, else the netCDF default for integers and NaN for other numbers. '
  'The coordinates of the cell in row i and column j are value i of lat and value j of lon (y and x where there is no lon), and their missing value the netCDF default; latitudes and longitudes have to come from the same file. '
  'Of PCRaster maps, the cells and the no-data value of the first band are used, latitudes from the latitude map and longitudes from the longitude map.',
  ['configurations', 'inputs'], 'netCDF maps with geographic or projected coordinates, any order and number of variables, with each combination of missing value attributes; PCRaster maps; target coordinates and elevation',
  'tests read square or symmetric maps with one convention; swapped rows and columns or another missing value are only visible with others',
  [M + 'readers/netcdf.py', M + 'readers/pcr.py', M + 'interpolation/latlong.py'],
  [('netCDF maps', M + 'readers/netcdf.py NetCDFReader'), ('PCRaster maps', M + 'readers/pcr.py PCRasterReader'), ('target grid', M + 'interpolation/latlong.py LatLong'), ('elevation', M + 'interpolation/latlong.py Dem')],
  'Readers and users are evaluated abstractly on dataset models (names, dimensions and attributes of the variables); coordinate arrays are typed by their dimensions and followed through reshaping and broadcasting to the value each cell gets.',
  'abstract interpretation over models of datasets, dimension typing of arrays',
  'the two dimensions of the variable are taken to be latitude and longitude in this order; identifiers of maps are decided by P15',
  state=[('map', 'variables, dimensions and attributes of the file')], observe=['target coordinates', 'elevations', 'missing values'])
p('P30', 'Weights of the bilinear and triangulation modes',
  'A cell of the bilinear mode, and one of bilinear_delaunay with four corners, has the weights (1-a)(1-b), a(1-b), ab and (1-a)b, each for its own corner, where a and b, kept within 0 and 1, are the solution of the equations that give latitude and longitude of that cell as sums of those weights with the coordinates of its corners; a cell of bilinear at a source point gets it alone, one out of reach or outside a regional grid none. '
  'Other cells of the Delaunay modes have the barycentric weights in the triangle found for them, each for its own vertex, with sources and targets scaled alike. '
  'Points repeated beyond the borders of a global grid stand for the original ones, 360 degrees away.',
  ['configurations', 'inputs'], 'the three modes, global and regional grids, rotated source grids or not; every cell, with any corners tried before',
  'the few grids of the tests do not meet cells of which corners were replaced many times, borders, or weights outside 0 to 1',
  [M + 'interpolation/scipy_interpolation_lib.py'],
  [('tables', M + 'interpolation/scipy_interpolation_lib.py ScipyInterpolation.interpolate')],
  'The three modes are evaluated abstractly from source points and target coordinates to the table. The weights stored for a cell are brought into polynomial normal form and compared with the equations given to the solver, evaluated on the corners of which the indexes are stored; '
  'corners that can be left over from the cell before are found from what the last round of the search leaves. Barycentric weights are followed to the triangle, its transform and its vertices.',
  'abstract interpretation, polynomial normal forms, dependence of values on earlier rounds of loops',
  'which source points become corners, and their order, is not decided, nor what the solver and the triangulation of scipy do, nor weights computed with whole-array products',
  state=[('source points', 'coordinates of the GRIB grid'), ('target cells', 'coordinates of the maps')], observe=['interpolation table', 'values of the output maps'])

p('P37', 'Source points, target cells and weights of the scipy modes',
  'In the nearest, inverse distance, ADW, CDD and bilinear modes of scipy, source points and target cells are placed on one sphere by their own coordinates, those of a rotated target turned back by the pole of the grid, and each cell gets the neighbours found by one search in all source points. '
  'In nearest and inverse distance, a cell out of reach (the largest distance between neighbouring source points and four times that over the number of rows) gets none, a cell at a source point gets it alone, others have inverse squared distances over their sum; weights of ADW and CDD are divided by their sum. '
  'With a number of splits every cell gets the entry computed for its own coordinates, in all modes of scipy.',
  ['configurations', 'inputs'], 'all scipy modes, rotated targets or not, with splits or not, single and double precision; cells at a source point, within and out of reach',
  'tests check few modes on one grid and never rotated targets, splits or cells out of reach',
  [M + 'interpolation/scipy_interpolation_lib.py', M + 'interpolation/__init__.py'],
  [('tables', M + 'interpolation/scipy_interpolation_lib.py ScipyInterpolation.interpolate'), ('arguments', M + 'interpolation/__init__.py Interpolator.interpolate')],
  'The interpolation is evaluated abstractly from the call in the interpolator to the table. Points given to the tree and to the search are compared with the expected ones as polynomials of sines and cosines; '
  'weights and indexes are evaluated for one generic cell in each position with respect to the source points and compared as rational functions; rows taken and stored by a split are compared as linear expressions, and the step is shown to be positive.',
  'abstract interpretation, polynomial normal forms, per-cell abstract evaluation of array terms',
  'directional weights of ADW and correlation distances of CDD are not decided, nor rounding; the weights of bilinear and triangulation are those of P30',
  state=[('source points', 'coordinates of the GRIB grid'), ('target cells', 'coordinates of the maps')], observe=['interpolation table'])

p('P22', 'Exactly the messages that match the settings are processed',
  'Without aggregation, an execution processes a message of an input file if and only if its short name is that of the parameter (as given, in upper case, or followed by var), its level, date, time and member equal the settings given, and its steps are within start and end step (exactly these when start and end are the same step). '
  'The start is dropped only when no message is left, and the execution ends with an error when there are still none. '
  'Each message found is processed once, with its own steps, level, values and bitmap, for the first resolution when on the grid of the first message and for the second one otherwise.',
  ['configurations', 'inputs'], 'all combinations of selection settings, values 0 included, one or two files, read with or without index, any order of messages; command line and API',
  'tests select one parameter in files written in order of steps',
  [M + 'readers/grib.py', M + 'context.py', M + 'controller.py'],
  [('selection', M + 'context.py Context.create_select_cmd_for_reader'), ('reading', M + 'readers/grib.py GRIBReader.select_messages')],
  'The execution is evaluated abstractly for every combination of settings; the guard under which a handle is appended to the list of messages is then evaluated for every kind of message (each key equal, different or undefined, steps around the bounds), '
  'selections on the index and positions of the file are tracked as typestate before each loop, and the stored values as per-cell terms.',
  'abstract interpretation, comparison of guard diagrams with the specification over an exhaustive abstraction of messages, typestate of index and file',
  'ecCodes is trusted to deliver what an index selects; the range of an aggregation is covered by other properties',
  state=[('input file', 'messages with keys, in any order'), ('settings', 'selection settings of the execution')], observe=['messages processed', 'error'])

p('P11', 'Errors reach the user: raised, complete, not swallowed',
  'Every error the program makes is raised, has the code it was made with, and its text holds the message of that code and the details; no code is used without a message. '
  'An error raised by any stage of an execution (opening and reading the input, conversion, aggregation, interpolation, correction, writing) ends the execution, also when the API runs it, and nothing that catches errors of every kind goes on as if nothing had happened. '
  'The command line program writes the text of a refusal or failed execution to its log as an error.',
  ['configurations', 'inputs', 'fault_sequences'], 'every place that makes an error, every handler, and each stage failing with a refusal and six kinds of library errors',
  'tests see few refusals; a swallowed error is only visible when the stage fails',
  ['src/pyg2p/exceptions.py', M + '__init__.py', M + 'controller.py', M + 'context.py', M + 'config.py', M + 'readers/grib.py', M + 'interpolation/__init__.py'],
  [('errors', 'src/pyg2p/exceptions.py ApplicationException'), ('executions', M + 'controller.py Controller.execute'), ('program', M + '__init__.py pyg2p_exe')],
  'Error constructions are resolved over the syntax trees and followed to a raise, each code is evaluated through the constructor, handlers of every kind of error are required to raise on each path; '
  'executions are evaluated abstractly with each stage failing in turn, and the condition under which its error leaves has to cover the condition under which the stage is reached.',
  'syntax tree queries (error construction, handlers), abstract interpretation with injected failures',
  'which request is refused with which code is decided by P16, P17, P22, P23, P24, P34; handlers for single kinds of errors that go on (missing file of the shared configuration, packed table, point outside of the grid) are allowed',
  state=[('failing', 'the stage that fails and its error')], observe=['error that leaves the execution', 'log'])
p('P12', 'Messages and files are released once, and not before their last use',
  'Every GRIB message the reader takes from the library is either released or kept: kept messages of an execution are released when the reader is closed, those only looked at before the operation ends, none twice. '
  'Closing the reader closes its index or file. Every input opened by an execution, an API request, a correction or the grid lookup of a table, and the netCDF output, is closed when these end, also when they fail later on (a correction: when it succeeds), and is not used afterwards.',
  ['configurations', 'inputs', 'fault_sequences'], 'indexed and plain files, selections with and without member, any number of messages matching or not; executions with one or two inputs failing at each read',
  'a leaked message or file is invisible in one run and a released one used later reads another field or crashes only on some inputs; tests check neither',
  [M + 'readers/grib.py', M + 'controller.py', M + 'api.py', M + 'manipulation/correction.py', 'src/pyg2p/__init__.py'],
  [('messages', M + 'readers/grib.py GRIBReader'), ('executions', M + 'controller.py Controller.close'), ('API', M + 'api.py Pyg2pApi.execute')],
  'The reader is evaluated abstractly; each call that takes a message is followed to a release or to the list it is put into, the conditions of both have to partition the condition under which there is a message, and the loops over the list have to release all of it. '
  'Users of the reader are evaluated with readers as opaque resources that can fail at each use.',
  'typestate and ownership analysis over abstract interpretation (acquire, keep, release, use after release)',
  'calls of the library that release are taken not to fail; output files and maps are decided by P10, P13 and P36',
  state=[('messages', 'handles taken from the library'), ('readers', 'open indexes and files')], observe=['release calls', 'close calls'])
p('P29', 'No execution stops at a name, attribute, argument or setting that does not exist',
  'On every path of every function a local variable has a value when it is read (loops taken at least once), and every global name, import, class member, call argument and field of a formatted message is defined. '
  'In command line and API executions, with any combination of the optional template sections covered, no operation gets a value without the attribute or with the wrong number of arguments, and no setting is read that the context did not define.',
  ['configurations', 'inputs', 'fault_sequences'], 'all functions of the package and all paths through them; settings open, and eleven sets of optional attributes for each entry point',
  'tests run few paths, errors on rarely taken ones (second resolution, refusals, unusual formats) stay unseen',
  [M + 'controller.py', M + 'context.py', M + 'api.py', M + 'config.py', M + 'readers/grib.py', M + 'writers/__init__.py', M + 'interpolation/__init__.py'],
  [('executions', M + 'controller.py Controller.execute'), ('settings', M + 'context.py ExecutionContext'), ('every function', 'src/pyg2p')],
  'Path-sensitive definite assignment over every function, resolution of names, members and signatures over the syntax trees of all modules, and the failing operations met by the abstract evaluations of the other properties '
  'and of whole executions on contexts made from templates and requests.',
  'definite assignment analysis, name and signature resolution over the syntax tree, abstract interpretation (attribute, arity and key errors)',
  'attributes of objects of other libraries are not checked; a loop that may run zero times is taken to run at least once',
  state=[('settings', 'template or request'), ('path', 'the path taken through a function')], observe=['internal errors'])
p('P39', 'Values, coordinates and cells keep their order',
  'On their way from a message or map to the output, the values and coordinates of source points, the coordinates and cells of the target, the elevation and the geopotential are never put in another order, and none is left out. '
  'Latitudes and longitudes decoded from a message are those of its points wherever the field or the geopotential is interpolated; those of the target cells come from the latitude and the longitude map, in every mode, on one sphere with the source points in the nearest mode of scipy.',
  ['configurations', 'inputs'], 'the three kinds of output, one or two resolutions or files, reading through an index or not, all interpolation modes, aggregations, correction',
  'tests compare a few maps with stored ones on one grid; a field turned or read with swapped coordinates in another mode, format or for the second file shows nowhere',
  ['src/pyg2p/__init__.py', M + 'readers/grib.py', M + 'interpolation/__init__.py', M + 'writers/__init__.py', M + 'api.py', M + 'manipulation/correction.py'],
  [('decoding', 'src/pyg2p/__init__.py GribGridDetails.latlons, ' + M + 'readers/grib.py GRIBReader.select_messages'), ('interpolation', M + 'interpolation/__init__.py Interpolator'), ('correction', M + 'manipulation/correction.py Corrector')],
  'Executions, reading, aggregation, interpolation and correction are evaluated abstractly. On the way of each array to where it is used, reversed or partial slices, flips, turns, sorts and reshapes in another order are looked for through loops and containers, '
  'and coordinates are followed to the key they are decoded with or the map they are read from.',
  'abstract interpretation, dataflow from decoded keys to interpolation',
  'the writing of fields is that of P04 and P09; indexes of tables are those of P19, P30 and P37; an order changed with index arrays is not seen',
  state=[('message', 'values and coordinates'), ('target', 'latitude and longitude maps')], observe=['values of the output maps', 'values the API returns'])

p('P38', 'Aggregation and conversion work with the settings of the execution',
  'Every aggregation of an execution gets type, step, unit time, half weights and forced zero array of the template, and missing value, step type and input step of the input; every conversion its function and cut-off. '
  'The messages read for an aggregation are those from one aggregation step before its start (not before step 0; the start itself for inputs with a single step) to its end. '
  'With two resolutions the first is aggregated up to the start of the first message of the second one, and the second from one aggregation step after the end of that message to the end step, whenever that is not before.',
  ['configurations', 'inputs'], 'settings open; start, end and aggregation step in every order with respect to each other and to the change of resolution; command line and API',
  'tests aggregate one resolution with few settings',
  [M + 'controller.py', M + 'manipulation/aggregator.py'],
  [('aggregations', M + 'controller.py Controller.execute'), ('second resolution', M + 'controller.py Controller.second_res_manipulation')],
  'Executions with one resolution, two resolutions and two files are evaluated abstractly over given messages; the terms given to aggregators and converters are traced back to settings, and the terms for the range of messages, '
  'for the steps of each aggregation and for its condition are compared with the documented ones for every order of the steps they compare.',
  'abstract interpretation, provenance of arguments, evaluation of symbolic terms over all orders of the compared steps',
  'what aggregations compute from it is decided by P28 and P01; a second resolution with its own input step is aggregated with the first one, which is not decided',
  state=[('settings', 'aggregation and conversion of the template'), ('input', 'steps and resolutions of the messages')], observe=['fields aggregated', 'messages read'])


def na(pid, title, statement, over, text, why, files, reason):
    p(pid, title, statement, over, text, why, files, [(title, files[0])], '', '', '')
    P[-1]['na'] = True
    NA.append((pid, reason))


NA = []
na('P40', 'Weights of ADW and CDD modes follow their published formulas',
   'For every target cell the weights of modes adw and cdd are the normalised products of the distance terms, the angular correction and (cdd) the correlation decay of its sources, with the documented limits of the number of sources.',
   ['inputs'], 'all source points, target cells and CDD maps',
   'tests compare a few cells of one grid with values that were computed by the program itself',
   [M + 'interpolation/scipy_interpolation_lib.py'],
   'the claim is a numerical equality of long vectorised floating point formulas (angles between every pair of sources, roots of iterated radii) over runtime geometry; comparing them needs a second implementation that is executed or a solver, neither of which is static analysis. '
   'Alignment, sources, normalisation and reuse of these tables are decided by P14, P26, P27 and P37.')
na('P41', 'Downloads of -W are complete and identical to the files of the server',
   'After -W has succeeded, every file of the data set on the server is in the folder of the user with the same content, and a download that was interrupted leaves no partial file that a later run takes for complete.',
   ['fault_sequences', 'histories'], 'all servers, interruptions and repeated downloads',
   'tests have no server', [M + 'config.py'],
   'content and completeness depend on the FTP server and on where the connection breaks, which no analysis of the sources bounds; which files are asked for, skipped and where they are put is decided by P24.')
na('P42', 'Concurrent runs that share tables do not corrupt the registry',
   'When several processes create interpolation tables at the same time with the same configuration, every table that one of them saved is registered afterwards and the registry is valid at every moment.',
   ['schedules', 'crash_points'], 'all interleavings and crash points of processes',
   'tests run one process', [M + 'config.py', M + 'interpolation/__init__.py'],
   'the sources have no locking or atomic replacement and the documentation promises none (tables are to be created by one run with -B), so there is no mechanism whose presence a static rule could decide; '
   'the order of saving and registering within a process is decided by P13.')
na('P43', 'Memory and time stay within the bounds the splits and parallel options promise',
   'With num_of_splits the memory of an interpolation is bounded by the size of one split, and with the parallel option the GRIB modes take less time than without for large maps.',
   ['inputs'], 'all sizes of maps and numbers of splits',
   'tests use small maps', [M + 'interpolation/scipy_interpolation_lib.py', M + 'interpolation/grib_interpolation_lib.py'],
   'time and memory are runtime quantities of numpy, scipy and dask that the sources do not bound; that splitting and parallel execution do not change the table is decided by P19 and P37.')

NOTES = 'One static analysis engine (sa/), one rule per property (rules/); see DESIGN.md.'
