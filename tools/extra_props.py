# Further properties (see mkmeta.py).
prop("C28", "The output table reports what happened",
     "A run prints one header and one row per simulated day with consecutive dates from the start date. In every row the simulated number of a camp is the number of agents in it (retired ones included), its data value is the interpolated (and corrected) observation, its error is the absolute difference relative to the data, and the total error, the sums over camps, the raw count, the number of agents, the debt and the displaced within the country are those of that day. The daily numbers are those of the documented main loop with the inputs named on the command line; the length comes from the argument or from the period file, the settings from the fourth argument or from simsetting.yml.",
     ["inputs", "histories", "configurations"],
     "all complete inputs, command lines and simulations",
     "Tests only check that runs finish and print something; the numbers are never compared with the agents or the data.",
     ["runscripts/run.py", "flee/postprocessing/analysis.py", "flee/datamanager/handle_refugee_data.py", M, "flee/Diagnostics.py"],
     [("main loop and table", "runscripts/run.py"), ("errors", "flee/postprocessing/analysis.py"), ("data", "flee/datamanager/handle_refugee_data.py")],
     "every field of the table of real runs is recomputed from the recorded positions of all agents, the data files and the calendar",
     "Exploration; exact up to printing precision.")
prop("C29", "Fixed routes are the best open routes of the day",
     "With fixed routes, every place (other than markers) stores on every day exactly one route to each place it can reach over open links within the awareness level, markers not counted. That route has the best weight of all simple open paths to the destination, by the documented formula with that day's attractiveness of the destination, and agents that set out anew follow it.",
     ["inputs", "histories", "configurations"],
     "all location graphs, settings, closures, conflicts, type changes and floods; inputs without explicit major routes",
     "The one test generates the routes of one place in one graph; outdated routes after closures or changes, markers and competing paths are not reached.",
     ["flee/crawling.py", "flee/scoring.py", M], [("generation", "flee/crawling.py generateLocationRoutes, calculateLocCrawlLinkWeight, _addLocationRoute"),
      ("daily update", "flee/flee.py Ecosystem.evolve")],
     "stored routes and weights are compared every day with all simple paths of a reference graph; departures are traced",
     "Exploration; exact. Major routes are C38; the probabilities among destinations are not claimed.")
prop("C30", "Error measures and reports follow from the output table",
     "The error functions (absolute and squared differences, relative, naive-model scaled and logarithmic measures) give the values of their definitions. The validation report of a run, the weighted average over several runs, the plots (every curve, per camp and in total) and the comparison of runs show the values that follow from the printed output tables, whatever the names of the camps.",
     ["inputs"],
     "all output tables and sets of runs",
     "Tests do not compute any of these from a known table.",
     ["flee/postprocessing/analysis.py", "flee/postprocessing/plot_flee_output.py", "flee/postprocessing/extract-validation-results.py",
      "flee/postprocessing/plot_flee_compare.py"],
     [("measures", "flee/postprocessing/analysis.py"), ("reports", "flee/postprocessing/")],
     "printed reports, written tables and the curves of all figures are compared with independent formulas over the table",
     "Exploration; exact up to printing precision.")
prop("C25", "Parallel Flee behaves like sequential Flee on any number of ranks",
     "With any number of MPI ranks, every agent that was added is on exactly one rank, agents are spread evenly, and after every day every rank reports, for every place and link, the number of agents there over all ranks. All ranks agree on time, scores, populations, spawn weights, types and stored routes, and the scores are those of the documented formula. The parallel and latency modes do not change what happens; one rank gives exactly what sequential Flee gives if capacities do not matter; crowds on several ranks choose by the same probabilities; agents move over open links only. The parallel run script prints one table that reports the agents of all ranks, and each rank logs its own agents and their journeys over the links.",
     ["inputs", "histories", "schedules", "configurations"],
     "all worlds, settings, histories, numbers of ranks and modes",
     "The tests run parallel Flee on a single rank, where sums over ranks, ownership of agents and locations and disagreement between ranks cannot be observed.",
     ["flee/pflee.py", "flee/spawning.py", "runscripts/run_par.py", "flee/Diagnostics.py"],
     [("agents", "flee/pflee.py Ecosystem.addAgent, insertAgent, clearLocationsFromAgents"), ("counts", "flee/pflee.py Ecosystem.updateNumAgents"),
      ("scores", "flee/pflee.py Ecosystem.evolve, synchronize_locations"), ("spawning", "flee/pflee.py Ecosystem.pick_spawn_locations, flee/spawning.py")],
     "the agents of all ranks of real mpiexec runs are traced and recounted against what every rank reports; modes and sequential runs are compared",
     "Exploration on up to 5 ranks; exact, except the binomial law for crowds. Ranks run on one machine.")
prop("C26", "Coupled submodels hand over exactly the agents at the coupled places",
     "When two submodels (with one or several instances each) are coupled over files or messages, then in every coupling step each instance announces, per coupled place that sends (direction contains 'out'), the number of agents there; the agents at its coupled places are removed; and every coupled place that receives gets new agents, as many as the instances of the other model announce for that same step under the same name (the rounded mean over instances). Agents elsewhere stay as they are, nothing is exchanged between the intervals, nobody waits forever, and with one instance per model no agent is lost or doubled over both models, however slowly messages arrive. Logs, plots and the averaged output table over instances show these numbers.",
     ["inputs", "schedules", "histories", "configurations"],
     "all pairs of worlds, couplings, delays of the instances and their writes, numbers of instances and intervals",
     "The tests of coupling need an external toolkit or run one case without looking at the agents; torn messages, several instances and one-way places are not reached.",
     ["flee/coupling.py", "flee/pflee.py"], [("exchange", "flee/coupling.py Couple, generateOutputCSVString, extractNewAgentsFromCSVString"),
      ("files", "flee/coupling.py writeOutputToFile, waitForInputFiles, readInputFromFile"),
      ("logs", "flee/coupling.py saveExchangeDataToFile, plotExchangedData, sumOutputCSVFiles")],
     "agents of all instances are traced around every exchange and compared with the messages and the agents of the other side",
     "Exploration; exact. The messages are exchanged by real processes over files; for MUSCLE3 a stand-in with the same ports delivers them (its manager is not run).")
prop("C31", "Micro models travel over typed and weather-dependent links",
     "A micro model has the places and links of its input files: names, countries, coordinates, types, populations or capacities, distances, forced directions, and the type of each link in the given direction. With weather coupling, on every day each link is as long as its distance times 1, 2 or 10000, by its type and the tables: a crossing is blocked (10000) if the river discharge at the closest measuring point reaches 8000 on that date; other links take the precipitation of that day against the 15 and 75 % quantiles of the records at (or closest to) their midpoint. The simulation works with the length of the current day, nobody arrives over a link faster than that allows, and no agent is lost or counted twice. Without weather, a micro model behaves exactly like parallel Flee.",
     ["inputs", "histories", "configurations"],
     "all typed worlds, weather tables, dates and simulations on any number of ranks",
     "The one test moves ten agents over typed links without weather; nothing loads files or weather tables.",
     ["flee/pmicro_flee.py", "flee/micro_InputGeography.py"], [("weather", "flee/pmicro_flee.py Link_weather_coupling"), ("typed links", "flee/pmicro_flee.py Ecosystem.linkUp, Link"),
      ("input", "flee/micro_InputGeography.py")],
     "lengths asked for by real simulations on 1 and 2 ranks are compared with an independent reading of the weather tables; agents are traced; runs are compared with parallel Flee",
     "Exploration; exact, except where a midpoint or a closest record is ambiguous. The type of a link in the direction opposite to the given one is not claimed.")
prop("C33", "A multiscale run reports and exchanges what happened",
     "When the multiscale run script runs a macro and a micro model with one or several instances each over file coupling, with or without weather coupling, each instance prints one header and one row per day: per camp the number of agents in it after that day's step, the interpolated observation and the relative error, then the total error relative to the raw count, the sums over camps, the number of agents, the raw count and the debt (zeros while the data has nobody). New agents appear in the macro model only, in its conflict zones, as many as the daily difference of the total data minus the debt of earlier decreases. On every day, agents at the places listed as coupled go both ways, agents in conflict zones of the macro model without links go to the micro model, and every place that receives has, after the exchange, the rounded mean of what the instances of the other model had; nobody else is added, lost or moved. The exchange logs hold these numbers, and the common table of a submodel is the mean over its instances. No instance fails or waits forever, however slow the others are.",
     ["inputs", "schedules", "histories", "configurations"],
     "all pairs of complete inputs, settings, numbers of instances and ranks, and delays",
     "No test runs the script (it could not even start before it was repaired); several processes that wait for one another cannot be covered by a unit test.",
     ["multiscale/run_mscale.py", "flee/coupling.py", "flee/pflee.py", "flee/pmicro_flee.py", "flee/micro_InputGeography.py"],
     [("main loop and tables", "multiscale/run_mscale.py"), ("exchange, ghosts, logs, means", "flee/coupling.py"),
      ("input", "flee/InputGeography.py, flee/micro_InputGeography.py")],
     "the real script runs in all its processes with its steps and exchanges watched from inside; every output, log and exchanged number is recomputed from the traced agents, the data and the other processes",
     "Exploration with up to 3 instances of each model on up to 2 ranks; exact. A run in which no place at all is coupled is not claimed; neither are decreases of population by clearing.")
prop("C34", "Flood forecasts act within their window and by awareness",
     "With the flood forecaster on, a timescale T above one and a day not after the end of the forecast, let S be the sum, over the next T days that are not after the end (over today if today is the end), of the location weight of a place's flood level on that day times the forecast weight of that day, days without flooding counting nothing. The chance to leave a place (unless people are forced on through a town) is then its usual chance times S/T of that place times the awareness weight of the agent's level of awareness; the attractiveness of a place that is not a flood zone is its usual one times S times S/T of that place times the same awareness weight; crowds leave and choose accordingly. With the forecaster off, T at most one or the end in the past, forecasts change nothing. The forecast of a place is its column of the flood level file (zeros without one), and people get their awareness from the demographics of their place.",
     ["inputs", "histories", "configurations"],
     "all forecast settings, flood tables, kinds of places, agents and days",
     "The tests read a table and check that settings have the values they were given; no test computes an effect of a forecast.",
     ["flee/moving.py", "flee/InputGeography.py", "flee/SimulationSettings.py", "flee/spawning.py"],
     [("departures", "flee/moving.py calculateMoveChance"), ("destinations", "flee/moving.py getEndPointScore"),
      ("tables", "flee/InputGeography.py UpdateLocationAttributes"), ("awareness", "flee/spawning.py read_demographics")],
     "move chances and scores against the formula; departures and destinations of crowds by awareness, in worlds built by hand and loaded from files",
     "Exploration; formula exact, frequencies by the binomial law (6.5 sigma).")
prop("C35", "Type checks never fail and change nothing",
     "With FLEE_TYPE_CHECK=true, every annotated function of Flee is called with and returns values of the types it declares, for every valid input, setting and history: simulations (sequential, on several ranks, coupled, micro and multiscale), input and data readers, logs, run scripts and reports never fail with a type error. A run with type checks gives exactly the results of one without (the random numbers that the checker itself draws apart), and without FLEE_TYPE_CHECK nothing is checked.",
     ["inputs", "histories", "configurations"],
     "all valid inputs, settings and histories of all parts",
     "The tests run with type checks, but with few settings: rules, error measures, reports and parallel runs failed under them on valid inputs.",
     ["flee/flee.py", "flee/moving.py", "flee/spawning.py", "flee/scoring.py", "flee/crawling.py", "flee/InputGeography.py", "flee/SimulationSettings.py",
      "flee/pflee.py", "flee/pmicro_flee.py", "flee/coupling.py", "flee/Diagnostics.py", "flee/datamanager/", "flee/postprocessing/analysis.py"],
     [("type checks", "check_args_type at the top of every module")],
     "annotations enforced at run time (beartype) as a sanitizer over the workloads of the other checks; paired runs with and without it in fresh interpreters",
     "Exploration; exact. Figures other than those of C30 are not run.")
prop("C36", "Summaries of ensembles follow from the tables of the runs",
     "From the output tables of the runs of an ensemble (one or more runs of the same camps and days), the forecast plots write, for all runs and for every region given (runs whose directory name begins with the region), all rows of these runs, the mean and the standard deviation of every column for every day, and one figure per camp with the curves of all runs and the data, their mean and the 5th and 90th percentiles; given arguments stay as they are. The uncertainty plots draw, per camp, the mean over the runs and the band of two standard deviations, for simulation and data, plain and rescaled to the total of the data (run by run), the mean totals, and the daily and average errors of the mean run, all runs found at any depth included; its naive-model measures and their weighted totals are those of the mean run. The interactive plots show for every camp the simulated numbers and the data, the totals, and the daily errors of the table they are given. Camp names with spaces, IDP totals and date columns do not matter.",
     ["inputs"],
     "all ensembles of output tables",
     "No test runs any of these; they crashed on every table that the current run scripts print.",
     ["flee/postprocessing/plot_flee_forecast.py", "flee/postprocessing/plot_flee_uq_output.py", "flee/postprocessing/plotly_flee_output.py"],
     [("summaries of regions", "flee/postprocessing/plot_flee_forecast.py"), ("means, bands, errors", "flee/postprocessing/plot_flee_uq_output.py"),
      ("pages", "flee/postprocessing/plotly_flee_output.py")],
     "written tables, printed errors and the curves and bands of all figures are compared with independent formulas over the tables",
     "Exploration; exact up to the four digits that the error functions keep. plotly is not installed: a stand-in records the lines of the pages.")
prop("C37", "Weather tables for micro models follow the records",
     "The precipitation script writes, for every day of the period and every route of the micro model, the precipitation that the daily records give for that date at the whole-degree cell nearest to the great-circle middle of the route's places, and plots their mean; its distance factor of a route on a day is 1 up to the 15 percent quantile of the historical records nearest to that middle, 2 up to the 75 percent quantile and 1000 beyond, in both directions. The discharge script keeps exactly the records from the start date up to but excluding the end of the period within the bounding box of the places. Micro models that read the prepared tables travel links of the lengths these records imply.",
     ["inputs"],
     "all periods, routes, places and records that cover them",
     "No test runs these scripts; the first crashed on every input.",
     ["multiscale/precipitation.py", "multiscale/micro_discharge_filtered_csv.py", "flee/pmicro_flee.py"],
     [("rain", "multiscale/precipitation.py"), ("discharge", "multiscale/micro_discharge_filtered_csv.py"), ("lengths", "flee/pmicro_flee.py Link_weather_coupling")],
     "the real scripts run on random records; tables, factors, curve and lengths are compared with an independent reading of the records",
     "Exploration; exact (middles within 0.02 degrees of a half degree and records equally near are avoided).")
prop("C38", "Major routes extend what people know",
     "With fixed routes, a major route of the input leads, in both directions, people who are at its start, or who have its start among the destinations within their awareness, to its end if that lies beyond their awareness: every place stores one route to each such end and to no other, with the weight that the documented formula gives for the best regular route to the start followed by the major route, at a quarter of its (softened) length; the best of several is stored. Routes to destinations within the awareness stay the best open ones, and major routes are not chained. Known finding: the stored routes lack their first stop.",
     ["inputs"],
     "all location graphs, major routes of two to seven places, settings, floods and type changes",
     "A test loads one graph with a few major routes and looks at a single place; competing routes, markers and changes are not reached.",
     ["flee/crawling.py", "flee/InputGeography.py"],
     [("inserting", "flee/crawling.py insertAllMajorRoutesAtLocation"), ("walking", "flee/crawling.py _addMajorRouteToLocation"), ("weights", "flee/crawling.py _addLocationRoute")],
     "stored routes and weights are compared every day with the best combinations in a reference graph",
     "Exploration; exact.")
prop("C39", "Inputs that contradict one another do not pass silently",
     "A run stops before it has reported all its days if a route names an unknown place, a population is not a whole number, a camp has no observations, a file of observations is missing, one of its dates is no date, a correction names something without observations, the conflicts or flood levels end before the run, or (with fixed routes) a major route that people could take leads to an unknown place. Such a name, and every unknown place or kind in conflicts, closed links and borders, location changes and kinds of places, appears on the error output. Linking an unknown place stops the serial, parallel and micro model alike and adds no link.",
     ["inputs"],
     "all complete inputs with one such flaw",
     "Tests use consistent inputs only; a typo that is silently dropped changes a study without anybody noticing.",
     ["flee/flee.py", "flee/pflee.py", "flee/pmicro_flee.py", "flee/InputGeography.py", "flee/crawling.py", "flee/datamanager/DataTable.py"],
     [("links", "flee/flee.py, flee/pflee.py, flee/pmicro_flee.py Ecosystem.linkUp"), ("names", "flee/flee.py _convert_location_name_to_index, add_conflict_zone"), ("numbers", "flee/InputGeography.py StoreInputGeographyInEcosystem"), ("data", "flee/datamanager/DataTable.py _find_headerindex")],
     "the real run script on complete inputs with one flaw each; its table, end and error output are watched",
     "Exploration; exact in what stops, names are searched in the error output. Closures of an unknown place, closures or spawn modes of an unknown kind and places named twice are not claimed (nothing reports these), and neither is the exit status (several of these stops end with status 0).")
