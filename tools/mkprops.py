"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

PS, PA, VI, RE, TI, UN = ("openscm/core/parameterset.py", "openscm/core/parameters.py", "openscm/core/views.py",
                          "openscm/core/regions.py", "openscm/core/time.py", "openscm/core/units.py")
BA, FI, OF, PT, SI = ("openscm/scmdataframe/base.py", "openscm/scmdataframe/filters.py", "openscm/scmdataframe/offsets.py",
                      "openscm/scmdataframe/parameter_type.py", "openscm/scmdataframe/__init__.py")
DI, AD, CO = "openscm/adapters/dice.py", "openscm/adapters/__init__.py", "openscm/core/__init__.py"

p("C01", "Hierarchical names address exactly one parameter",
  "In a parameter set, two requests reach the same parameter exactly when their parameter paths and region paths are equal level by level, whether each path is given as a '|'-separated string, a tuple or a list. Asking for information about a parameter never creates anything and returns nothing for parameters or regions that neither were requested nor lie on the way to a requested one, and reports the full path, region, type and unit the parameter was first requested with otherwise. A name without any level and a region path that does not start at the root region are rejected with ValueError when a view is requested.",
  ["inputs", "histories"], "all name and region strings up to a bounded length over an alphabet with separators, in all spellings, and all bounded sequences of view requests and information requests",
  "Tests use a handful of fixed names; equality of paths must hold for all names, including empty levels and names that are prefixes of each other.",
  [PS, PA, RE], [("view requests and info", PS+":ParameterSet"), ("parameter tree lookup", PA+":_Parameter.get_subparameter"), ("region tree lookup", RE+":_Region.get_subregion")])
p("C02", "Parent parameters read as the sum of their leaves, always up to date",
  "Reading a scalar or timeseries parameter that has child parameters (all of its own type) gives, in the unit and on the time points of the view, the sum over all its leaf descendants of what a view of that leaf in the same unit and on the same time points reads. This holds at every moment, also for views obtained before the leaves were last changed, and reading never changes any parameter.",
  ["inputs", "histories"], "all parameter values (reals), linear unit scales, tree shapes up to depth 3 and bounded interleavings of leaf writes and parent reads",
  "Tests check a few fixed trees and values read once; staleness only shows in particular write/read interleavings.",
  [VI, PA], [("scalar aggregation", VI+":ScalarView.value"), ("timeseries aggregation", VI+":TimeseriesView._get_values"), ("cache refresh", VI+":TimeseriesView._read")])
p("C03", "Parameter tree stays consistent; refused operations change nothing",
  "A parameter keeps the type of its first request, a parameter with children can never be written (by no means, including item assignment), a parameter that was read or written can never get new children, generic parameters with children cannot be viewed, and a parameter can only be read after it was written; each such attempt is refused with the documented error. A refused operation leaves what can be read from every parameter, and whether it counts as empty, as it was before.",
  ["histories", "fault_sequences"], "all bounded sequences of view requests, reads, full writes, wrong-length writes and item writes on a small tree of parameters, with symbolic values",
  "Tests exercise single transitions in a fixed order; the guarantee is about every history.",
  [PA, VI, PS], [("read/write attempts", PA+":_Parameter.attempt_read"), ("child creation", PA+":_Parameter.get_or_create_child_parameter"), ("writes", VI+":TimeseriesView.values")],
  state=[{"name": "has_been_written_to", "meaning": "parameter counts as non-empty"}, {"name": "has_been_read_from", "meaning": "no more children"}])
p("C04", "Every view shows the latest write, converted to its own unit and times",
  "After any sequence of writes through any views of a parameter (whole values, single items, slices, in-place arithmetic, locked or unlocked), every view of that parameter reads the last written data converted to that view's own unit and time points, and writing through a view and reading it back through the same view returns what was written. Writes through a locked view become visible to other views only at unlock and then completely. Arrays of values or times handed to timeseries views and results computed from them are never aliased with stored data; only the view's own timeseries handle (and its slices) write through.",
  ["inputs", "histories"], "all written values (reals), unit scales and offsets, and bounded histories of writes through up to three views with different units, including lock and unlock",
  "Tests check a few fixed sequences; caching and version bookkeeping errors need particular interleavings of views.",
  [VI], [("timeseries view cache", VI+":TimeseriesView._read"), ("timeseries handle", VI+":_Timeseries"), ("scalar view", VI+":ScalarView.value")],
  state=[{"name": "version", "meaning": "incremented by every write; compared with the version of the view's cache"}])
p("C05", "Unit conversion is the exact affine map between units, and its inverse",
  "Converting a value between two units of the same dimension gives the value the unit definitions imply (scale ratio and, for temperatures, offsets), for every value, elementwise for arrays; converting back with the opposite direction returns the original value; converting via a third unit gives the same result; the identity conversion returns the value unchanged. Units of different dimensions and undefined units are refused with an error.",
  ["inputs", "configurations"], "all values and all scale factors and offsets of the units involved (symbolic units), and the shipped temperature, mass, time and concentration units",
  "Tests check a few unit pairs at a few values; slope and intercept errors that cancel at those values stay unseen.",
  [UN], [("converter", UN+":UnitConverter")])
p("C06", "Emission units: every gas is its own dimension with fixed mass ratios",
  "Each standard gas (and its upper-case spelling, alias names and joint mass units such as tCO2 or gCO2) converts to its base species with exactly the documented molecular-mass ratio, in every combination with mass and time units. Without a metric, different species are never convertible into each other. Prefixed units, kt and the time abbreviations a, h and d mean kiloton, year, hour and day.",
  ["configurations", "inputs"], "all gases in the shipped table (by finite enumeration), all values, and symbolic mass and time prefix units",
  "Tests sample about a dozen gases; every gas of the table and every spelling is reachable by users.",
  [UN], [("gas table and definitions", UN+":ScmUnitRegistry._add_gases"), ("standards", UN+":ScmUnitRegistry.add_standards")])
p("C07", "Metric contexts convert with exactly the table value and do not leak",
  "Within a metric context, an amount of a listed gas converts to CO2 by exactly the factor the shipped metric table lists for that gas and context (and back by its reciprocal), equally for amounts, masses, rates and mass fluxes, and in combination with any unit conversion. The CH4 and NOx conversion contexts apply the mass ratios 12/16 to carbon and 14/46 to nitrogen. Without a context such conversions are refused, also after contexts were used before, and unavailable table entries give NaN with a warning.",
  ["inputs", "configurations", "histories"], "all values of the metric table (symbolic GWP numbers), all values converted, all gases and contexts, and sequences of conversions with and without contexts",
  "Tests check some gases and three contexts against hard-coded numbers; the transformation rules are per dimension and per direction, so each combination can be wrong on its own.",
  [UN, "openscm/data/metric_conversions.csv"], [("context construction", UN+":ScmUnitRegistry._load_metric_conversions"), ("CH4/NOx", UN+":ScmUnitRegistry._load_contexts")])
p("C08", "Converting period averages preserves means",
  "Converting an average timeseries to other periods gives, for every target period, the mean over that period of one continuous piecewise-linear curve whose mean over each source period is the source value, with edge values equal to the mean of adjacent periods. So converting to the same periods is the identity, merging whole periods gives the duration-weighted mean, splitting periods preserves the total, and the conversion is linear in the values.",
  ["inputs"], "all values (reals), numbers of periods 3 to 6, symbolic period boundaries and target periods within bounds",
  "Tests check a few fixed grids; conservation must hold for all values and all grids.",
  [TI], [("mean-preserving curve", TI+":_calc_integral_preserving_linear_interpolation"), ("averaging", TI+":_calc_interval_averages"), ("converter", TI+":TimeseriesConverter")])
p("C09", "Converting point timeseries interpolates linearly between its points",
  "Converting a point timeseries to other time points returns at every target point the value on the straight line between the two neighbouring source points, hence exactly the source value at source points, for any spacing. The conversion is linear in the values and never leaves the range of the two neighbouring values.",
  ["inputs"], "all values (reals), numbers of points 3 to 6, all strictly increasing integer source times and target times within bounds",
  "Tests compare fixed arrays; the property is over all grids and values.",
  [TI], [("point representation", TI+":TimeseriesConverter._calc_continuous_representation"), ("conversion", TI+":TimeseriesConverter._convert_unsafe")])
p("C10", "Extrapolation follows the chosen mode; impossible conversions are refused",
  "Outside the source time span, extrapolation 'none' refuses the conversion with InsufficientDataError, 'constant' holds the first or last given value, and 'linear' continues the first or last line segment; inside the span the mode makes no difference. Conversions with fewer than three values, or whose target lies entirely before the source, are refused with InsufficientDataError; the same rules hold in both conversion directions.",
  ["inputs", "configurations"], "all values, all source and target times within bounds (before, across, after the span), both timeseries types and all modes",
  "Tests fix one grid per mode; boundary times and both directions need every ordering of the times.",
  [TI], [("extrapolation arguments", TI+":TimeseriesConverter._get_scipy_extrapolation_args"), ("error mapping", TI+":TimeseriesConverter._convert")])
p("C11", "Generated time points are equidistant with the requested count",
  "Creating time points from a start time, period length and number of values gives, for point timeseries, exactly that number and, for average timeseries, one more point; the i-th point is exactly start plus i times the period length in whole seconds. Unknown timeseries types are refused with ValueError.",
  ["inputs"], "all start times and period lengths in whole seconds (any magnitude up to bounds), counts up to 8, both types in all spellings",
  "Tests use two or three starts and yearly periods.",
  [TI, PA], [("creation", TI+":create_time_points"), ("type parsing", PA+":ParameterType.from_timeseries_type")])
p("C12", "Time points convert losslessly between representations",
  "Building time points from integer years gives 1 January 00:00 of that year, from fractional years the same fraction of that calendar year's seconds, and from datetimes, datetime64 or date strings that very instant (whole seconds); order is preserved. The year, month, day, hour and weekday reported for each point are its proleptic Gregorian calendar components, for years far outside the nanosecond range too.",
  ["inputs"], "all instants in years 1 to 9999 to the second, all integer years and fractional years in bounds",
  "Tests check a few dates; leap years, century rules and pre-1970 dates are special everywhere.",
  [TI], [("parsing", TI+":_format_datetime"), ("float years", TI+":_float_year_to_datetime"), ("components", TI+":TimePoints")])
p("C13", "DICE steps follow the published climate equations and conserve carbon",
  "Every step of the DICE model computes atmosphere, shallow and deep ocean carbon, radiative forcing, and atmosphere and ocean temperature from the previous step by the published difference equations with the parameters given, each clamped at its limit and nothing else. When no limit is active, total carbon in the three pools grows in a step by exactly the emitted carbon (in the chosen rounding convention). Initial values of all outputs are the given initial parameters, and exogenous forcing rises linearly until its saturation time and is constant afterwards.",
  ["inputs", "histories"], "all parameter values, emissions and states (reals), both rounding conventions, steps up to the bound, all relations of saturation time and clamps",
  "The test compares one default scenario with stored output; most parameters and clamps never vary or act there.",
  [DI], [("step", DI+":DICE._calc_step"), ("reset", DI+":DICE._reset"), ("run parameters", DI+":DICE._initialize_run_parameters")])
p("C14", "Model runs are reproducible, equal to stepping, and respect user parameters",
  "Running the model gives the same output as resetting and stepping to the end, running it again without changes gives the same output again, and running after changes of parameters or emissions (other than the time axis) gives what a fresh model with those values gives. Values the user set always win over the model's defaults, inputs are never modified by a run, steps report the simulated time, and the adapter's initialization happens exactly once and before anything else. Unknown models are refused with KeyError.",
  ["histories", "inputs"], "all emission values, parameter values and bounded sequences of run, reset, step and parameter changes",
  "Tests run each sequence once with default values.",
  [CO, AD, DI], [("lifecycle", AD+":Adapter"), ("driver", CO+":OpenSCM"), ("defaults", DI+":DICE._initialize_model")])
p("C15", "Metadata filters match exactly the described names",
  "Filtering a metadata column by strings keeps exactly the timeseries whose value equals a pattern in which '*' stands for any text and every other character for itself; with regexp enabled the pattern is a regular expression matched from the start; lists keep the union, several columns the intersection. A level filter (with a variable pattern without '*' or with '*' only at its end, taken literally) keeps exactly those matching variables whose number of '|' beyond the pattern's leading part is equal to, at most ('N-') or at least ('N+') the given number. Missing metadata count as empty text, and filtering by unknown columns is refused with ValueError.",
  ["inputs"], "all metadata strings and patterns up to a bounded length over an alphabet with separators, wildcards and every regular-expression special character, all levels",
  "Tests use about twenty fixed patterns; escaping and depth must hold for all strings.",
  [FI, BA], [("pattern matching", FI+":pattern_match"), ("level", FI+":find_depth"), ("combination", BA+":ScmDataFrameBase._apply_filters")])
p("C16", "Time filters select exactly the matching time points",
  "Filtering by year, month, day, hour or time keeps exactly the time points whose calendar component (or instant) is among those requested, where months and weekdays can also be given by English short or full names and as increasing inclusive ranges, alone or in lists (of numbers, or of names and ranges of one style). Decreasing ranges, unintelligible names and requests of a wrong type are refused with an error, several filters combine by intersection, and the request objects passed in stay unmodified.",
  ["inputs"], "all time points (symbolic instants), all integer components and all lists of names and ranges up to a bounded length",
  "Tests use a few single requests; lists mixing names and ranges and all component values are unbounded in combination.",
  [FI, BA], [("time matching", FI+":time_match"), ("day dispatch", BA+":ScmDataFrameBase._day_match")])
p("C17", "Filtering partitions the data and never alters it",
  "Keeping and dropping with the same filters split the data: every stored value appears with the same metadata and time in exactly one of the two results, and timeseries or times without any remaining value disappear from data, metadata and time axis together. Filtering in place gives the same result as filtering a copy, and without it the original is unchanged; data, metadata and time points always stay aligned.",
  ["inputs", "histories"], "all values (reals or missing), all subsets of timeseries and times selected, and sequences of filters",
  "Tests compare a few filtered frames.",
  [BA], [("filter", BA+":ScmDataFrameBase.filter")])
p("C18", "Unit conversion of data frames changes exactly the selected timeseries",
  "Converting units in a data frame converts each selected timeseries from its own unit to the requested unit (value for value as the unit converter does, in the given context), updates its unit and context metadata, and leaves values and metadata of all other timeseries, missing values, and the time axis as they are. Converting in place equals converting a copy, and without it the original is unchanged; selections that cannot be converted are refused and nothing is changed.",
  ["inputs", "configurations"], "all values (reals or missing), symbolic unit scales, all subsets selected and mixes of source units",
  "Tests convert a few fixed frames.",
  [BA], [("conversion", BA+":ScmDataFrameBase.convert_unit")])
p("C19", "Interpolating a data frame converts each timeseries by its own type",
  "Interpolating or resampling a data frame gives, for every timeseries and independent of the others in the frame, the conversion of its values to the target times as a point or average timeseries, according to its given type or else the type its variable and unit imply; metadata are kept and the type used is recorded. Already given types win, the target grid is exactly the requested one for every timeseries, and the original frame is unchanged.",
  ["inputs", "configurations"], "all values, all mixes and orders of point and average timeseries with and without given types and extra metadata of any kind, and target grids",
  "Tests interpolate frames with a single type.",
  [BA, PT], [("interpolate", BA+":ScmDataFrameBase.interpolate"), ("resample", BA+":ScmDataFrameBase.resample")])
p("C20", "Appending frames loses, invents and mixes nothing",
  "Appending frames yields every timeseries of every input with its metadata and values at its times: data with identical metadata are merged, values present at the same time in several inputs are averaged (with a warning unless switched off), times without data are missing. Metadata columns an input does not have are missing for its timeseries (missing metadata are equal to each other however they are given), the order of inputs does not matter for the content, and inputs are not changed unless in place is requested for the first.",
  ["inputs", "configurations"], "all values (reals or missing), all overlaps of times and metadata of two or three small frames, and all extra columns",
  "Tests append a few fixed frames.",
  [BA], [("append", BA+":df_append")])
p("C21", "Parameter sets and data frames convert into each other without loss",
  "Turning a data frame (of one run, at least three times, and regions below 'World' given as paths) into a parameter set and back on the same times gives the same variables, regions at every depth, units, types and values, and scalar and generic parameters become metadata and back. A frame with several runs, or with a climate model's output, is refused with ValueError; generic or scalar parameters outside the root region are refused when exporting.",
  ["inputs", "configurations"], "all values, all bounded sets of variables, regions up to depth 3, both timeseries types and metadata",
  "Tests round-trip one fixed frame.",
  [BA, SI], [("export", SI+":convert_openscm_to_scmdataframe"), ("import", BA+":ScmDataFrameBase.to_parameterset")])
p("C22", "The same data in any accepted format give the same frame",
  "Wide tables, long tables (by year or by time), arrays with metadata columns, series, other frames and permutations of their rows or columns, holding the same data, create frames with the same content: each value under its own metadata and time, times sorted as given instants. Column names of tables are accepted in any letter case; missing required columns are refused with ValueError, and one metadata value given for all timeseries applies to all. (Long tables cannot tell a timeseries or time of only missing values, and hold each value once.)",
  ["inputs", "configurations"], "all values (reals or missing), small numbers of timeseries and times, all column orders and formats",
  "Tests load a few fixtures per format.",
  [BA], [("constructor", BA+":ScmDataFrameBase.__init__"), ("wide and long", BA+":_format_data"), ("arrays", BA+":_from_ts")])
p("C23", "Generated date ranges cover the span with all steps of the offset",
  "Generating a date range from a start to an end with an offset gives exactly the dates reached by repeating the offset, from the last date on it (disregarding its multiple) not after the start to the first one reached that is not before the end, strictly increasing, each once, with no time of day lost. This holds far outside the nanosecond datetime range, and business-day offsets are refused with ValueError.",
  ["inputs"], "all starts and ends within bounded spans (symbolic instants), annual and monthly start and end offsets with multiples",
  "Tests use a few dates per rule.",
  [OF], [("range", OF+":generate_range"), ("offsets", OF+":to_offset")])
p("C24", "Timeseries types are inferred from units first and names second",
  "If the unit is known, a timeseries is inferred to be an average exactly when its unit contains a time dimension; only if the unit is missing or unknown (cannot be understood), its name decides: names starting with 'Emissions', 'Radiative Forcing' or 'HEATUPTAKE_EBALANCE_TOTAL' or containing 'Flux', '_EMIS', '_GWPEMIS', '_RF', '_SRF', '_EFFRF' or '_PEFFRF' are averages, everything else is a point timeseries. The inference is a function of name and unit alone.",
  ["inputs"], "all variable names up to a bounded length (symbolic strings embedding the recognised words at any position) and representative units",
  "Tests check about twenty names.",
  [PT], [("guess", PT+":guess_parameter_type")])
p("C25", "Reference-period anomalies and group statistics are computed per timeseries",
  "Relative to a reference period, every value of every timeseries is reduced by the mean of that same timeseries' values in the reference period (missing values left out; without any the result is missing), and only the variable name is changed (by the given suffix, or one naming the reference period). Processing over columns (all but at least one) gives for each combination of the remaining metadata, also missing ones, the mean, median or quantile (linearly interpolated) of the values present of exactly the timeseries with that combination, time by time, and refuses other operations with ValueError. The frame itself stays as it is.",
  ["inputs"], "all values (reals or missing), reference periods by years, months or variables over all times, and all groupings of up to four timeseries by metadata of any kind, also missing",
  "Tests compare fixed arrays.",
  [BA], [("anomaly", BA+":ScmDataFrameBase.relative_to_ref_period_mean"), ("statistics", BA+":ScmDataFrameBase.process_over")])
p("C26", "Metadata edits touch exactly the metadata asked for",
  "Setting metadata for a frame or for an indexed part of it (by an index, series or table naming metadata, missing ones too), and renaming entries of columns, changes exactly the addressed entries of the addressed columns: every timeseries keeps its values, and all other metadata stay with it; entries of a new column not addressed are missing. Index entries that are unknown or given twice, metadata lists of a wrong length, and renaming to non-unique metadata or in unknown columns are refused with ValueError and nothing is changed. Renames of several entries happen at once. Editing a copy leaves the original unchanged, and changing the time axis changes times only, or nothing if the number of times is wrong.",
  ["inputs", "configurations"], "all values, all bounded metadata tables, selections by index, mappings and new times (symbolic instants)",
  "Tests cover a few mappings.",
  [BA], [("set_meta", BA+":ScmDataFrameBase.set_meta"), ("rename", BA+":ScmDataFrameBase.rename"), ("time axis", BA+":ScmDataFrameBase.__setitem__")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
