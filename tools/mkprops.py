#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property set changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

p("C01", "Self-calibration closes",
  "Calibrating the titrant against a titration's known alkalinity and then solving that same titration with the calibrated titrant under the same settings returns the known alkalinity. This holds in every solve mode, for any normality, for titrants that also add sulfate, fluoride or phosphate, for any first guess, pH window, Gran selection and constants option, and through the array, file and dataset interfaces alike (unless the set of points inside the pH window itself changes at the calibrated value, where no titrant molinity reproduces the known alkalinity exactly).",
  ["inputs", "configurations"], "every combination of solve mode, titrant composition, normality, pH window, first guess and chemistry options on every titration",
  "tests close the loop for one file per mode with default options; never with titrant-added salts, normality, non-default windows, or options given as table columns",
  ["calkulate/core.py", "calkulate/files.py", "calkulate/dataset.py"],
  [("calibrate_emf / calibrate_pH / calibrate_pH_gran", "calkulate/core.py"), ("add_titrant_totals", "calkulate/core.py"), ("calibrate, solve", "calkulate/files.py")],
  ["calkulate.core.calibrate_*/solve_*", "calkulate.files.calibrate/solve", "Dataset.calkulate"])

p("C02", "Solving recovers the alkalinity and EMF0 that generated a titration",
  "For a titration whose measurements follow exactly from a known alkalinity, electrode EMF0, titrant molinity and solution composition, solving with that titrant and composition returns that alkalinity, and (for EMF or adjustable-pH data) that EMF0. This holds across salinity, temperature, composition, sample size, titrant strength, pH window and choice of equilibrium constants. The package's own titration simulator generates exactly such titrations.",
  ["inputs", "configurations"], "every physically sensible titration in the enumerated grid of compositions, conditions, electrode offsets, titrants, windows and options",
  "one simulated seawater titration at one salinity, temperature and window is tested; interactions (nutrients x constants x window x temperature ramps x units) are never reached",
  ["calkulate/core.py", "calkulate/simulate.py", "calkulate/interface.py", "calkulate/convert.py"],
  [("complete-calculation residual", "calkulate/core.py: solve_emf, solve_pH"), ("alkalinity equation", "calkulate/simulate.py"), ("titration simulator", "calkulate/simulate.py: _titration")],
  ["calkulate.core.solve_emf/solve_pH", "calkulate.files.solve", "calkulate.simulate._titration"])

p("C03", "A row's result depends only on that row",
  "In a dataset, every titration's calibration and solution are the ones it would get if it were the only row, given the same titrant molinity and call options. The other rows, their order, their failures, which of their cells are blank, duplicated file names and the index labels have no influence, and each result is stored against its own row.",
  ["inputs", "histories"], "every ordered selection of rows of different kinds, blank patterns and index labellings",
  "tests run a few fixed tables and never compare a row's result with the same row alone, in another order, or beside failing or differently configured rows",
  ["calkulate/dataset.py", "calkulate/meta.py", "calkulate/files.py"],
  [("row-wise apply", "calkulate/dataset.py: calibrate, solve, calibrate_row, solve_row"), ("per-row options", "calkulate/meta.py: _get_kwargs_for")],
  ["Dataset.solve", "Dataset.calibrate", "Dataset.calkulate"])

p("C04", "One unusable titration never stops a dataset or yields a number",
  "When a titration file is missing, unreadable, empty or malformed, when the row is flagged as not good, or when its own metadata make solving impossible, processing the dataset still completes. That row gets blank results (no alkalinity, no individual titrant molinity, even if an earlier run had produced some), it does not contribute to any calibration, and all other rows get the same results as without it.",
  ["fault_sequences", "histories"], "every fault kind at every row position, singly and in pairs, on fresh and previously solved datasets, for every operation",
  "tests contain one table with one missing file and check nothing about stale values, other fault kinds or calibration contamination",
  ["calkulate/dataset.py"],
  [("exception containment", "calkulate/dataset.py: calibrate_row, solve_row"), ("blank result template", "calkulate/dataset.py: solve_row"), ("file_good gate", "calkulate/dataset.py")],
  ["Dataset.calibrate", "Dataset.solve", "Dataset.calkulate"])

p("C05", "Batch titrant is the mean of that batch's usable references only",
  "After calibration each row's titrant molinity is the arithmetic mean of the individually calibrated molinities of the references in its own analysis batch that are usable and not marked as bad, and nothing else; rows of a batch without any such reference, and rows without a batch, get no titrant molinity and hence no alkalinity. Without batch information the whole dataset is one batch, references are calibrated individually whether or not they are marked bad, and the offset reported for every reference is its alkalinity minus its certified value. The batch statistics (mean, sample standard deviation, number) are those of exactly these references.",
  ["inputs", "configurations"], "every assignment of batch, reference status, quality flag and file quality to the rows of small datasets, for every kind of batch label",
  "tests use single-batch tables with all references good",
  ["calkulate/dataset.py"],
  [("get_batches, get_group_calibration", "calkulate/dataset.py"), ("batch lookup", "calkulate/dataset.py: calibrate")],
  ["Dataset.calibrate", "calkulate.dataset.get_batches"])

p("C06", "Row value beats call option beats default; blanks fall through",
  "For every documented option, the value used for a titration is the row's own value where the table has a non-blank one, otherwise the value passed in the call, otherwise the documented default, in both calibration and solving. Old-style spellings (a nested dict of file-reading options or a pH range pair as argument, the old name of the file-type option as argument or column) have exactly the effect of the new ones.",
  ["configurations", "inputs"], "every recognised option x every placement (absent, call, column, both, blank column with call, mixed blank rows) x operation, and pairs of options",
  "tests pass a handful of options in one placement each; several options change the default result by less than the tests' tolerance",
  ["calkulate/meta.py", "calkulate/dataset.py", "calkulate/files.py", "calkulate/core.py"],
  [("_get_kwargs_for", "calkulate/meta.py"), ("_backcompat", "calkulate/dataset.py"), ("key sets", "calkulate/core.py, calkulate/files.py, calkulate/convert.py, calkulate/read/titrations.py"), ("prepare, get_total_salts", "calkulate/dataset.py")],
  ["Dataset.solve", "Dataset.calibrate"])

p("C07", "Results depend on current metadata, not on processing history",
  "Whatever sequence of calibrating, solving, doing both, extracting single titrations, plotting, correcting metadata or replacing titration files came before, the next run gives the results that a freshly built dataset with the same user-provided metadata and files would give. Running the same operation again changes nothing, doing both at once equals the two steps in turn, and metadata that the user provided are never altered.",
  ["histories"], "every sequence of operations and edits up to the bound, from every reachable table state",
  "tests run each table once or twice in one fixed order",
  ["calkulate/dataset.py", "calkulate/classes.py", "calkulate/plot/__init__.py"],
  [("in-place column updates", "calkulate/dataset.py: prepare, calibrate, solve, get_total_salts")],
  ["Dataset columns after each operation"],
  [("dataset table", "user metadata plus result columns", "Dataset (pandas)")])

p("C08", "All interfaces give the same answer for the same titration",
  "The dataset method, the top-level function on a plain table, the file-level call, the array-level call and the single-titration object all return the same alkalinity, EMF0 and Gran estimates for the same file and settings, including when optional cells are blank or the sample size is given as a volume. The single-titration object's point-by-point table is consistent with that solution: same titrant masses, temperatures, pH, used points, diluted totals and constants, and alkalinity estimates whose mean over the used points agrees with the solved alkalinity.",
  ["configurations", "inputs"], "every configuration within the deviation bound, through every interface",
  "tests compare dataset and single-titration results for one row with default options",
  ["calkulate/classes.py", "calkulate/dataset.py", "calkulate/files.py", "calkulate/core.py", "calkulate/__init__.py"],
  [("Titration.__init__", "calkulate/classes.py"), ("solve", "calkulate/files.py"), ("add_solve_results", "calkulate/dataset.py")],
  ["Dataset.solve", "calkulate.solve", "calkulate.files.solve", "calkulate.core.solve_*", "calkulate.Titration / to_Titration"])

p("C09", "Titration files are read and written faithfully",
  "Reading a titration file returns, in order, every titration point with exactly the numbers in the file for titrant amount, measurement and temperature, for each supported layout and for any valid column choice, delimiter and header length; material before or after the titration block is not mixed in. Writing titration data and reading them back reproduces the values to the requested number format, and writing never overwrites an existing file unless asked to.",
  ["inputs", "configurations"], "every enumerated file content (signs, magnitudes, row counts, surrounding material), layout and option",
  "tests only check that returned values are arrays of equal shape",
  ["calkulate/read/titrations.py"],
  [("read_dat and its readers", "calkulate/read/titrations.py"), ("write_dat", "calkulate/read/titrations.py")],
  ["calkulate.read_dat", "calkulate.write_dat"])

p("C10", "Titrant and sample amounts are converted to mass correctly",
  "Titrant amounts in ml, g or kg become masses in kg point by point, using the given density if there is one and otherwise the density formula of the stated titrant at its stated strength (only for ml). The sample mass is the given mass when there is one, otherwise the given volume times the seawater density at the sample's salinity and first temperature, and a temperature override replaces every temperature of the titration.",
  ["inputs", "configurations"], "every combination of unit, density, titrant kind and strength, mass/volume presence, salinity and temperature",
  "tests check two density values and type of the converted result",
  ["calkulate/convert.py", "calkulate/density.py"],
  [("amount_units", "calkulate/convert.py"), ("density formulas", "calkulate/density.py")],
  ["calkulate.convert.amount_units", "calkulate.density.*", "Dataset.solve"])

p("C11", "Exactly the points inside the pH window determine the result",
  "A measurement is used if and only if its pH lies within the requested window, both limits included, where the pH is the measured one or (for EMF data) the one from the starting EMF0 and, when solving twice, from the EMF0 of the first solution. Points outside the window have no influence on the pH-based solutions, the reported number of points is the number used, and an empty or reversed window never yields an alkalinity (a window without any width may be refused).",
  ["inputs", "configurations"], "every window between grid limits, including limits that coincide with measured values, for every point pattern and solve mode",
  "tests use two windows and never inspect which points were used",
  ["calkulate/core.py", "calkulate/dataset.py"],
  [("used masks", "calkulate/core.py: solve_emf, solve_pH, solve_pH_gran"), ("double solve", "calkulate/core.py: solve_emf")],
  ["solve result 'used'", "alkalinity_npts"])

p("C12", "Speciation conserves mass and follows the alkalinity definition",
  "For any pH, set of total contents, set of constants and pH scale, the computed species obey their equilibrium constants and sum to their totals, and alkalinity is the charge-weighted sum of exactly the species present (zero-level of protons at pK 4.5). Only the species whose totals are given appear, values agree elementwise for array inputs, and the same solution gives the same non-hydrogen species and total alkalinity on the free, total and seawater scales.",
  ["inputs"], "every subset of totals x pH grid x constants x pH scale, scalars and arrays",
  "tests compare random points with all totals present, on the free scale, plus one point on other scales",
  ["calkulate/simulate.py"],
  [("alkalinity_components, component_multipliers, alkalinity", "calkulate/simulate.py")],
  ["calkulate.simulate.alkalinity_components", "calkulate.simulate.alkalinity"])

p("C13", "Totals and constants through the titration are right",
  "At every point of a titration, each total content is the user's value, else the one PyCO2SYS estimates from salinity (or zero; the options that exclude nutrients by definition, 6 and 8, set those to zero), times the dilution by the titrant, plus whatever the titrant itself adds. Each equilibrium constant is the user's value, else PyCO2SYS's value at that point's temperature and the sample's salinity for the selected options, accounting for dilution of the totals only if requested.",
  ["inputs", "configurations"], "every combination of given/absent totals and constants, options, salinity, temperature pattern and titrant additions within the deviation bound",
  "tests use default options and check one composition",
  ["calkulate/interface.py", "calkulate/convert.py", "calkulate/core.py", "calkulate/dataset.py"],
  [("get_totals, get_k_constants", "calkulate/interface.py"), ("dilute_totals*", "calkulate/convert.py"), ("totals_ks, add_titrant_totals", "calkulate/core.py"), ("get_total_salts", "calkulate/dataset.py")],
  ["calkulate.core.totals_ks", "calkulate.core.add_titrant_totals", "dataset salt columns"])

p("C14", "EMF, hydrogen ion and pH conversions are exact Nernst inverses",
  "Converting EMF to hydrogen ion content or pH and back returns the starting value, hydrogen ion content equals ten to the minus pH, a shift of EMF0 shifts EMF equally, and the slope is the Nernst slope at the given temperature. This holds elementwise for scalars and arrays over the whole measurable range.",
  ["inputs"], "the full grid of EMF, EMF0, temperature and pH values, scalar and array shapes",
  "tests check the round trip at random values only, which any pair of mutually inverse but wrong formulas passes",
  ["calkulate/convert.py", "calkulate/constants.py"],
  [("emf_to_h, emf_to_pH, h_to_emf, pH_to_emf, f_to_demf0", "calkulate/convert.py")],
  ["calkulate.convert.*"])

p("C15", "Processing never changes its inputs and is repeatable",
  "Calibrating or solving, successfully or not, leaves the caller's arrays, composition and constants tables, option dictionaries, rows and files as they were, so that repeating a call gives the identical result. No call changes the package defaults or the result of any later call.",
  ["histories", "inputs"], "every sequence of array-, file- and row-level calls up to the bound, including failing ones, on shared input objects",
  "tests call each function once on inputs that are then discarded",
  ["calkulate/core.py", "calkulate/files.py", "calkulate/classes.py", "calkulate/dataset.py", "calkulate/convert.py"],
  [("titrant totals added and reverted in place", "calkulate/core.py: _lsqfun_calibrate_*"), ("copies", "calkulate/classes.py, calkulate/convert.py")],
  ["inputs before/after each call", "return values"])

p("C16", "VINDTA database import keeps every analysis and names its file",
  "Importing a VINDTA database gives one row per analysis in the original order with its values unchanged; bottle rows get the file name made from station, cast, niskin, depth and bottle in the requested format, reference-material rows get the file name made from batch and bottle and their certified alkalinity, and all other rows are flagged as not good. Dates and times become the corresponding date-time (blank when absent), and the sample volume or mass and file path given in the call apply to every row.",
  ["inputs", "configurations"], "every sequence of analysis kinds and date patterns up to the bound, with every call option",
  "tests import two fixed databases and check only types",
  ["calkulate/read/metadata.py"],
  [("read_dbs, get_VINDTA_filenames, dbs_datetime", "calkulate/read/metadata.py")],
  ["calkulate.read_dbs"])

p("C17", "Gran estimates follow the selected points and regression",
  "The Gran estimates of alkalinity and EMF0 are those of a linear regression of the Gran function on titrant mass over the selected points: by default every point from the first whose Gran function exceeds 10 % of its maximum, and with the legacy rule only those between 10 % and 90 % of the maximum. The estimates reported for a solution are those for the selection rule that was asked for, in the first and second solve, and a pure strong-acid titration gives its exact alkalinity and EMF0. A warning is given when fewer than 3 points are selected or when their correlation coefficient is below 0.95, and only then.",
  ["inputs", "configurations"], "every enumerated titration shape, selection rule, normality and double-solve setting",
  "tests compare Gran results with stored values for one table with one rule",
  ["calkulate/core.py"],
  [("gran_function, gran_alkalinity, gran_emf0s, gran_guesses", "calkulate/core.py"), ("solve_pH_gran", "calkulate/core.py")],
  ["calkulate.core.gran_*", "gran_alkalinity / gran_emf0 columns", "pH_gran results"])

p("C18", "Solutions respect the symmetries of a titration",
  "Adding a constant to every EMF shifts EMF0 by it and leaves alkalinity unchanged (as long as the same points fall into the pH window); scaling sample and titrant amounts together changes nothing; exchanging normality for molinity at constant product changes nothing; the order in which the points are listed does not affect the solutions of pH data. Stating the same amounts in other units or the same temperature as an override changes nothing.",
  ["inputs", "configurations"], "every transformation (and composition of transformations) in the bound applied to every base titration and setting",
  "tests have no relation between two runs",
  ["calkulate/core.py", "calkulate/convert.py", "calkulate/files.py"],
  [("solve_emf, solve_pH, solve_pH_gran", "calkulate/core.py"), ("amount_units", "calkulate/convert.py")],
  ["calkulate.core.solve_*", "calkulate.files.solve"])

p("C19", "DIC-loss modelling conserves DIC and recovers its coefficient",
  "Modelled DIC starts at the initial content (diluted by any titrant present from the start) and at every step equals the diluted previous content minus the loss coefficient times the CO2 excess over air times the titrant step; with zero coefficient it is pure dilution, in the simulator and in the loss model alike. Fitting data that follow the model recovers the coefficient, and values at the titration points are those of the modelled curve, flagged as fitted exactly where pH is at or above the split.",
  ["inputs", "configurations"], "every enumerated combination of loss coefficient, air fCO2, split pH, sample size, step and composition",
  "no active test touches the DIC-loss code",
  ["calkulate/loss.py", "calkulate/simulate.py"],
  [("dic_loss_model_fitted, dic_loss_model_future, get_dic_loss_hires, get_dic_loss", "calkulate/loss.py"), ("DIC loss in _titration", "calkulate/simulate.py")],
  ["calkulate.loss.*", "calkulate.simulate._titration"])

p("C20", "Figures show the data they are given and change nothing",
  "Each plot of a titration draws every titration point exactly once, split into used and unused as in the solution, at that point's titrant mass and value; dataset plots draw every row with a value once, split into good and bad references, with each batch's mean. Plotting in any order leaves the dataset or titration unchanged.",
  ["histories", "inputs"], "every plot function, alone and in every ordered pair, on every solved titration or dataset kind in the bound",
  "no test draws a figure",
  ["calkulate/plot/__init__.py", "calkulate/plot/titration.py"],
  [("dataset figures", "calkulate/plot/__init__.py"), ("titration figures", "calkulate/plot/titration.py")],
  ["matplotlib artists", "dataset/titration before and after"])

p("C21", "Unrecognised options are announced and have no effect",
  "An option that the package does not know, given when calibrating or solving a dataset or calibrating a single file, is reported by a warning naming it and does not change any result or stop processing; options that it does use, in new or old spelling, are never reported as ignored. Extra table columns are carried along untouched and have no effect, and an unknown file type or old name is announced by its own name before falling back to the default reader.",
  ["configurations", "inputs"], "every recognised option and a set of unknown ones, singly and in pairs, in calls and columns, for each operation and interface",
  "no test checks warnings or extra columns",
  ["calkulate/dataset.py", "calkulate/files.py", "calkulate/read/titrations.py", "calkulate/meta.py"],
  [("ignored-kwargs check", "calkulate/dataset.py: solve; calkulate/files.py: calibrate"), ("read_dat fallback", "calkulate/read/titrations.py")],
  ["warnings", "results"])

p("C22", "Reported diagnostics describe the reported solution",
  "For every solved row the reported number of points, standard deviation, initial pH and initial temperature are those of the reported solution: the count and spread of the alkalinity estimates at the used points, and the pH (at the solved EMF0) and temperature of the first point. Quantities that a solve mode does not produce are blank, per-point alkalinity estimates follow from the pH, the totals and the acid added, and no diagnostic of another row or an earlier run remains.",
  ["inputs", "configurations", "histories"], "every solve mode, titration shape and option in the bound, on fresh and previously solved tables",
  "tests never look at the diagnostic columns other than Gran values",
  ["calkulate/dataset.py", "calkulate/core.py"],
  [("add_solve_results", "calkulate/dataset.py"), ("SolveEmfResult/SolvePhResult/SolvePhGranResult", "calkulate/core.py")],
  ["alkalinity_npts, alkalinity_std, pH_init, temperature_init, emf0 columns", "solve results"])

p("C23", "Results do not depend on how the metadata table was made or stored",
  "The same metadata give the same calibrations and solutions whether the table was built in memory or read from a CSV, delimited, fixed-width, Excel, clipboard or other pandas source, whatever storage type its columns have (integers, floats, booleans, nullable or object columns, strings, categories), in whatever order its columns stand, and after selecting, copying or reordering its rows. The package's readers pass their options on to pandas and deliver the table pandas would, and converting a dataset to a plain DataFrame keeps its contents and is independent of the dataset.",
  ["inputs", "configurations", "histories"], "every optional column, blank pattern, origin, storage type, row selection, column order and reader option in the bound",
  "tests read one Excel file and one CSV and keep the types that pandas infers",
  ["calkulate/read/metadata.py", "calkulate/dataset.py", "calkulate/classes.py"],
  [("read_csv, read_excel, read_table, read_fwf, read_clipboard", "calkulate/read/metadata.py"), ("get_total_salts, row options", "calkulate/dataset.py"), ("Dataset, to_pandas", "calkulate/classes.py")],
  ["calkulate.read_*", "Dataset", "calkulate.calkulate/calibrate/solve results"])

p("C24", "Titrations that cannot be processed are announced by name",
  "When a titration file cannot be read, imported, calibrated or solved, processing the dataset says so in a message that names that file — when calibrating and when solving, for every failing titration; no message names a titration that was processed normally or one that is flagged not to be processed. With verbose=True each titration being calibrated or solved is announced by its file name, and no result changes.",
  ["inputs", "configurations"], "every kind of fault, position, role, operation, solve mode and combination of faults in the bound",
  "no test looks at messages, and none has two different faults in one dataset",
  ["calkulate/dataset.py", "calkulate/files.py"],
  [("calibrate_row, solve_row error branches", "calkulate/dataset.py"), ("verbose messages", "calkulate/dataset.py")],
  ["standard output and error", "warnings"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
