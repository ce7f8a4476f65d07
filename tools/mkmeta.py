#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (for the checks that exist)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, state=state))


M = "flee/flee.py"
MON = "runtime monitoring: "
prop("C01", "Agents are conserved",
     "In a sequential simulation every agent that was ever added is, after every simulated day and every intervention, at exactly one place or underway on exactly one link. The population count of every place and of every link, open or closed, equals the number of agents that are there, retired agents included, and the total number of agents grows exactly by the agents added. Only clearing a place from its agents removes agents, and then exactly the agents at that place. Printed summaries show these numbers.",
     ["inputs", "histories", "configurations"],
     "all location graphs, settings and histories of spawning, closing, reopening, removing, type changes, clearing and simulation steps",
     "The tests run a few fixed graphs and look at one or two counts at the end; a lost or double-counted agent on a closed link, after clearing or through retirement does not show there.",
     [M, "flee/spawning.py"], [("movement between places and links", "flee/flee.py Person.evolve, Person.finish_travel, Person.handle_travel"),
      ("counters", "flee/flee.py Location/Link IncrementNumAgents, DecrementNumAgents"), ("clearing", "flee/flee.py Ecosystem.clearLocationsFromAgents")],
     "independent recount of all agents after every day and intervention, fed by a trace of every position change",
     "Exploration of random worlds and intervention histories with an exact oracle; trusts only the list of agents and their positions.")
prop("C02", "Agents move along open links only and arrive where links lead",
     "An agent leaves a place only through a link that is open at that moment and starts there, and at the end of the link it is at the link's end point. If the link closes while the agent is underway, the agent travels on and, at its end, finds itself back at the place it came from. Agents never jump between places in any other way.",
     ["inputs", "histories", "schedules"],
     "all location graphs and schedules of closures, reopenings and removals of links, places and borders, relative to the agents underway",
     "Tests close links before agents set out, or look only at final counts; they do not follow individual agents across closures that happen under way.",
     [M, "flee/moving.py"], [("departures", "flee/flee.py Person.evolve, Person.take_next_step"), ("arrivals", "flee/flee.py Person.finish_travel"),
      ("closures", "flee/flee.py Ecosystem._remove_link_1way, _reopen_link_1way")],
     "every position change of every agent is checked online against a reference model of open links",
     "Exploration; exact per transition. The reference model of the open links is updated from the interventions, not from the code's state.")
prop("C03", "Travel takes the time that distance and speed imply",
     "An agent on a link advances by its daily speed (the maximum, the link's own speed limit, or walking speed on its first link with walking starts and on pure walking links), and it reaches the end of the link on the first day on which the distance it covered there exceeds the link's length, not earlier or later. An agent never covers more than this speed per day. The distance covered on the current link and in total, the days since it was displaced, the number of places passed and its recent travel are accounted accordingly.",
     ["inputs", "configurations", "histories"],
     "all link lengths, speeds, speed limits, walking rules and journeys over several links",
     "The tests use two or three link lengths and check end points only; off-by-one days, wrong speeds for one kind of link and accounting after bounces are not visible.",
     [M], [("travel", "flee/flee.py Person.evolve, Person.finish_travel"), ("distance", "flee/flee.py Link.get_distance")],
     "the travel days and accounting of every agent are recomputed from its recorded moves",
     "Exploration; exact per leg (tolerance 1e-6 km). Known finding: several links on one day each get a full day's distance.")
prop("C04", "Agents leave a place with the configured move chance",
     "The chance that an agent at a place sets out on a day is the configured one of that kind of place (1 for hubs and markers) or the one given for the place itself, scaled with its population or capacity as configured, and replaced by that of its flood level under flood rules. The departures of large crowds follow this chance day by day. If short stints are to be avoided, an agent that reaches a town after little recent travel moves on at once, otherwise the usual chance applies.",
     ["inputs", "configurations"],
     "all kinds of places, settings, populations and explicit move chances",
     "The tests fix one or two move chances (often 1.0), where a wrong branch or scaling cannot be seen, and never look at frequencies.",
     ["flee/moving.py", M], [("move chance", "flee/moving.py calculateMoveChance"), ("decision", "flee/moving.py calculateMoveChance, flee/flee.py Person.evolve")],
     "move chances against the documented formula; departures of crowds against the binomial law (6.5 sigma)",
     "Exploration; formula points exact, frequencies with a false alarm probability below 1e-9 per test.")
prop("C05", "Agents consider the destinations within their awareness and follow their route",
     "The routes an agent may choose from are exactly the simple paths over open links of at most as many places as the awareness level says (pass-through markers do not count, paths never return to where they began). Without pre-computed fixed routes, an agent that leaves either takes the next link of the route it chose before, or starts one of the routes on offer. If there is no route it stays.",
     ["inputs", "histories", "configurations"],
     "all location graphs, awareness levels and closures",
     "Tests check the selection of routes on two fixed graphs at one awareness level; cycles, markers in a row, one-way closures and awareness 0 are not reached.",
     ["flee/moving.py", M], [("route search", "flee/moving.py selectRoute, calculateLinkWeight"), ("route following", "flee/flee.py Person.take_next_step")],
     "routes on offer are compared with all simple open paths of a reference graph; every departure is checked against plan or offer",
     "Exploration; exact set comparison.")
prop("C06", "Route choices follow the documented weights",
     "The weight of every route on offer is the documented product of the attractiveness of the places along it and the distance between them, with the configured powers, softening, population, home distance, ethnicity, age and capacity rules. Agents choose among the routes with probabilities proportional to these weights, after routes below the pruning threshold are dropped. Equal inputs give equal weights, and an agent without a usable route stays where it is.",
     ["inputs", "configurations"],
     "all graphs, agents' attributes and movement rules",
     "The tests compare a handful of weights on one graph with default rules; optional rules and the frequencies of choices are untested.",
     ["flee/moving.py"], [("weights", "flee/moving.py calculateLinkWeight, getEndPointScore"), ("choice", "flee/moving.py chooseFromWeights, normalizeWeights, pruneRoutes, selectRoute")],
     "weights against an independent implementation of the formula; choices of crowds against the resulting probabilities (6.5 sigma)",
     "Exploration; weights to relative 1e-9, frequencies statistically.")
prop("C07", "Camps repel agents according to their occupancy",
     "The attraction of a camp with a capacity is not reduced while its occupancy (people there) is below the configured buffer share, falls linearly to zero at its capacity, and is zero beyond it, with the capacity scaled as configured; places without a capacity are never throttled. No agent sets out on a link while the camp it is heading for is so crowded at that moment that its attraction is less than half.",
     ["inputs", "configurations", "histories"],
     "all capacities, buffers, scalings and occupancies, and all simulations with small camps",
     "Tests probe three occupancy values of one camp; boundary values, scaling and the effect on agents underway along fixed plans are not covered.",
     ["flee/moving.py", M], [("multiplier", "flee/moving.py getCapMultiplier"), ("full camp check", "flee/flee.py Person.check_dest_is_full_camp")],
     "multiplier against its definition; every departure to a camp is judged against the occupancy at that moment",
     "Exploration; exact.")
prop("C08", "Closing, reopening and removing links, places and borders",
     "Closing a link, place or border closes exactly the links it names (one direction or both, whichever order the end points are named in), keeps their length, attributes and agents, and reopening restores exactly the closed ones. Removing a link deletes exactly that link. Operations on names that do not exist change nothing, and repeating an operation changes nothing.",
     ["inputs", "histories"],
     "all graphs and sequences of operations, from the API and from input files",
     "Tests close and reopen one link or border of a small graph; sequences that combine directions, places and borders are not reached.",
     [M], [("links", "flee/flee.py Ecosystem._remove_link_1way, _reopen_link_1way, close_link, reopen_link, remove_link"),
      ("places and borders", "flee/flee.py Ecosystem._change_location_1way, _change_border_1way")],
     "open and closed links are compared with a reference graph after every operation",
     "Exploration; exact comparison including lengths, attributes and redirection.")
prop("C09", "Scheduled closures take effect and end on the scheduled days",
     "A closure of a link, place, border, camp or IDP camp that is scheduled from a start to an end day applies from the start day on (in both directions, or one way if enacted so) and is undone on the end day; without an end day, or with an end before its start, it is permanent. Camps are opened and closed, and forced redirections removed, on their days. On all other days the schedule changes nothing.",
     ["schedules", "inputs", "histories"],
     "all closure schedules, including overlapping, adjacent and single-day periods, from files or the API",
     "The tests enact one closure and look at one day; overlaps and the exact first and last day are not tested.",
     [M, "flee/InputGeography.py"], [("schedule", "flee/flee.py Ecosystem.enact_border_closures"), ("file", "flee/InputGeography.py ReadClosuresFromCSV, StoreInputGeographyInEcosystem")],
     "links, camp status and redirections are compared with a reference schedule on every day",
     "Exploration; exact. Overlapping closures of one object have sequential semantics (no reference counting), as in the code.")
prop("C10", "Locations behave as the kind of place they currently are",
     "After any sequence of type changes (by API or scheduled in an input file), camp openings and closings and conflict changes, every location has exactly the kind (town, refugee camp, IDP camp, conflict zone, forwarding hub, marker), the conflict intensity and the move chance that its latest change implies. The list of camps contains exactly the current camps, and the number of internally displaced persons is the number of agents in current IDP camps.",
     ["histories", "inputs"],
     "all histories of type changes, openings, closings and conflicts",
     "Tests construct one location of each type and change one type once; combinations and repeated changes are not covered.",
     [M, "flee/InputGeography.py"], [("types", "flee/flee.py Location.__init__, open_camp, close_camp, Ecosystem.change_location_type"),
      ("camp list and IDPs", "flee/flee.py Ecosystem.get_camp_names, numIDPs"), ("file", "flee/InputGeography.py ReadLocationChangesFromCSV, AddNewConflictZones")],
     "kind, move chance, camp list and IDP totals are compared with a reference state machine after every step",
     "Exploration; exact.")
prop("C11", "Conflicts start, change and end on the days the input says",
     "On every day the places in conflict and their intensity are exactly those that the conflicts file lists for that day, or, without such a file, those whose conflict date has been reached. A place that is no longer in conflict gets the move chance of a town, new displacement starts only at places in conflict, and pauses and repeated outbreaks are respected.",
     ["inputs", "schedules"],
     "all conflict tables and conflict dates",
     "Tests use tables in which each conflict starts once and stays at one intensity.",
     ["flee/InputGeography.py", M], [("table", "flee/InputGeography.py ReadConflictInputCSV, getConflictLocationNames, AddNewConflictZones"),
      ("conflict zones", "flee/flee.py Ecosystem.add_conflict_zone, remove_conflict_zone, set_conflict_intensity")],
     "daily set of conflict zones, intensities, move chances and spawn places are compared with the table",
     "Exploration; exact.")
prop("C12", "Location attractiveness follows kind, conflict, country and flooding",
     "The attractiveness score of every location is, after every simulation step, the product of the configured factors: camp weight for camps, conflict weight for conflict zones to the extent of intensity and conflict decay, foreign weight for places abroad, and the flood weight for flooded places. It follows later changes of kind, conflict and flooding.",
     ["inputs", "histories", "configurations"],
     "all weights, decay tables and histories of type changes, outbreaks, flooding and camp changes",
     "Tests compute scores right after construction with default weights only.",
     ["flee/scoring.py", M, "flee/SimulationSettings.py"], [("score", "flee/scoring.py updateLocationScore"), ("decay", "flee/SimulationSettings.py get_conflict_decay, get_location_conflict_decay")],
     "score of every location against the documented product after every step", "Exploration; relative 1e-9.")
prop("C13", "Displaced people start in conflict zones by population and intensity",
     "Agents spawned from total numbers start only at places in conflict, each with a probability proportional to population times intensity times conflict decay, with the populations, intensities and kinds of the moment. Exactly as many agents are added as asked for.",
     ["inputs", "histories", "configurations"],
     "all sets of conflict zones, populations, intensities and decay settings",
     "Tests spawn a few agents with one conflict zone, where any weights give the same result.",
     ["flee/spawning.py", M], [("weights", "flee/spawning.py refresh_spawn_weights"), ("choice", "flee/flee.py Ecosystem.pick_spawn_locations")],
     "counts per place of large batches against the expected shares (6.5 sigma)", "Exploration; statistical, false alarm probability below 1e-9 per test.")
prop("C14", "Data-driven spawning adds exactly the arrivals that the data implies",
     "Without conflict- or flood-driven spawning the number of agents added on a day is the increase of the interpolated data (sum of the camps or total, as configured) since the day before, rounded as documented, minus the decrease carried over from earlier days. Decreases accumulate as debt instead of removing agents; the raw count is the running sum of the daily differences, and with inserted day-0 populations nobody is added on day 0.",
     ["inputs", "histories", "configurations"],
     "all registration tables and settings",
     "Tests use one growing table; falling numbers, gaps and debts over several days are not tested.",
     ["flee/spawning.py", "flee/datamanager/DataTable.py"], [("daily numbers", "flee/spawning.py spawn_daily_displaced"), ("differences", "flee/datamanager/DataTable.py get_daily_difference")],
     "daily arrivals, raw count and debt against an independent interpolation of the same files",
     "Exploration; exact. Known finding: the day-0 sum includes the total column.")
prop("C15", "Conflict- and flood-driven spawning displaces the configured numbers",
     "With conflict-driven spawning every place in conflict displaces, per day, the configured number times its intensity (constant), the configured share of its population times its intensity (ratio), or a Poisson number with that mean; with flood-driven spawning every flooded place displaces the number or share configured for its flood level. No other place displaces anybody, and the daily total reported is the number of agents added.",
     ["inputs", "configurations"],
     "all modes, intensities, flood levels and populations",
     "Tests run one constant mode and check that it does not fail.",
     ["flee/spawning.py"], [("numbers", "flee/spawning.py spawn_daily_displaced")],
     "agents added per place and day against the configured numbers (Poisson: 6.5 sigma)", "Exploration; exact for constant and ratio modes.")
prop("C16", "Taking agents from the population conserves people",
     "If agents are taken from the population of their home, the population of every place plus the agents that started there stays what it was at the beginning, as long as it has people left, and never becomes negative. If the setting is off, spawning changes no population.",
     ["inputs", "histories"],
     "all populations, including ones that run out, and all ways to spawn agents",
     "Tests add one agent to a large population.",
     [M, "flee/spawning.py"], [("population", "flee/flee.py Ecosystem.addAgent, insertAgent"), ("spawning", "flee/spawning.py")],
     "population of every place is recounted against the agents whose home it is after every step", "Exploration; exact.")
prop("C17", "On day 0 camps hold the people that data and settings say",
     "If day-0 populations are to be inserted, every camp starts with exactly as many agents as the interpolated, scaled data says for day 0, plus those given as initially displaced for that camp; if camps are to be empty, with none. Nobody else is placed anywhere, and the placed agents are at home in their camp. People who are simulated fill camps only as their occupants: capacities stay as the input gives them, except that camps that are to start empty have only the room that the people in the data leave, and a camp without room left never counts as one without limit.",
     ["inputs", "configurations"],
     "all data tables, settings and attributes",
     "Tests use one table and only one combination of the settings.",
     ["flee/spawning.py", "flee/datamanager/DataTable.py"], [("initial agents", "flee/spawning.py add_initial_refugees"), ("room in camps", "flee/spawning.py spawn_daily_displaced")],
     "agents per place after initialisation against interpolated data and attributes", "Exploration; exact.")
prop("C18", "Agents' attributes follow the demographics tables and the agents file",
     "Every agent spawned or placed gets a value of every attribute in the demographics tables, drawn in proportion to the weights of its home's column, or of the default column if it has none, independently of other agents and attributes; values with weight zero are never drawn. Agents listed in an agents file are loaded as listed: one per row, at the named place, with the listed attributes.",
     ["inputs"],
     "all demographics tables, agents files and ways to spawn agents",
     "Tests load one table and do not look at frequencies.",
     ["flee/spawning.py", "flee/InputGeography.py"], [("sampling", "flee/spawning.py read_demographics, draw_sample, draw_samples"), ("agents file", "flee/InputGeography.py ReadAgentsFromCSV")],
     "attribute counts per home against the weights (6.5 sigma); loaded agents against the rows", "Exploration; statistical for sampling, exact for listed agents.")
prop("C19", "Input files are turned into exactly the location graph they describe",
     "After loading, there is one location per row of the locations file with its name, region, country, coordinates, kind, population or capacity and extra attributes, one two-way link per row of the routes file with its length, forced redirection and extra attributes, and one closure, type change or major route per row of the respective files, no more and no less. Comments and empty lines are ignored, places outside the first location's country are foreign, and daily tables give each place its level of the day. Maps drawn from the files have every place at its coordinates in the colour of its kind.",
     ["inputs"],
     "all input files in the documented formats",
     "Tests load the example inputs and count rows.",
     ["flee/InputGeography.py"], [("reading", "flee/InputGeography.py ReadLocationsFromCSV, ReadLinksFromCSV, ReadClosuresFromCSV, ReadLocationChangesFromCSV, ReadAttributeInputCSV"),
      ("building", "flee/InputGeography.py StoreInputGeographyInEcosystem, UpdateLocationAttributes")],
     "the loaded graph is compared with the generated rows", "Exploration; exact (floating point values to 1e-9).")
prop("C20", "Settings files give the values they name and documented defaults otherwise",
     "A value that a settings file gives is the one the simulation uses; every value it omits has its documented default, whatever was loaded before in the same process. Contradictory settings are refused with an error instead of being run.",
     ["configurations", "histories"],
     "all subsets of the documented settings, and sequences of settings files",
     "Tests load one or two settings files; leftovers of earlier files and most keys are not looked at.",
     ["flee/SimulationSettings.py"], [("settings", "flee/SimulationSettings.py ReadFromYML, fetchss")],
     "loaded settings against a table of documented names and defaults; effects of settings in small simulations", "Exploration; exact.")
prop("C21", "Validation data is interpolated and dated as documented",
     "The value of a place on a day is linearly interpolated between the nearest records before and after it, constant before the first and after the last one, summed over its tables and divided by the population scaling; raw values are the last record's. A table that overrides the total takes its place and never counts as a camp. Daily differences, interpolation flags and maxima follow from these values. Dates and the simulation period are converted to day numbers by calendar arithmetic.",
     ["inputs"],
     "all data layouts, tables and dates",
     "Tests look up a few values of one table.",
     ["flee/datamanager/DataTable.py", "flee/datamanager/handle_refugee_data.py", "flee/datamanager/read_period.py"],
     [("interpolation", "flee/datamanager/DataTable.py get_interpolated_data, get_raw_data, get_field, is_interpolated"), ("tables", "flee/datamanager/DataTable.py AddCSVTables, ConvertCsvFileToNumPyTable"),
      ("dates", "flee/datamanager/DataTable.py subtract_dates, steps_to_date, flee/datamanager/read_period.py read_sim_period")],
     "values against exact rational arithmetic on the generated records", "Exploration; sums of tables with different days may lie anywhere between their neighbouring values. Known finding as in C14.")
prop("C22", "Registration corrections and empty starts adjust the data as defined",
     "A level-1 registration correction of a place at the date of one of its records scales all its earlier records by the ratio of that record to the one before it, and leaves later records and other places unchanged; at any other date, or at the first record, it changes nothing, and the returned factor is the ratio or one. With empty starts every camp's data is reduced by its day-0 value throughout, so that camps begin empty and day 0 brings no arrivals.",
     ["inputs"],
     "all tables, correction files and orders of corrections",
     "Tests apply one correction to one table.",
     ["flee/datamanager/handle_refugee_data.py", "flee/datamanager/DataTable.py"], [("corrections", "flee/datamanager/handle_refugee_data.py correctLevel1Registrations, ReadL1Corrections"), ("empty start", "flee/datamanager/DataTable.py __init__")],
     "corrected records, factors and daily values against the definition", "Exploration; exact up to rounding of records.")
prop("C23", "Agent and link logs tell what happened in the simulation",
     "With agent logging on, every day adds one row per agent that has not retired before, with its number, home, current place or link and position, whether it travels, its distances, places and attributes, exactly as they are at the end of the day (reduced to regions if so configured); deeper log levels add rows for links completed on that day. With link logging on, every day adds one row per open link with the number of agents that have set out on it since the start, and at the deeper level also per attribute value. With logging off nothing is written.",
     ["histories", "configurations"],
     "all simulations, log levels and granularities",
     "Tests check that log files appear.",
     ["flee/Diagnostics.py", M], [("agents", "flee/Diagnostics.py write_agents_par"), ("links", "flee/Diagnostics.py write_links_par")],
     "every added row is compared with recorded moves and states", "Exploration; exact.")
prop("C24", "Arrival statistics count the arrivals in camps and their travel time",
     "With camp logging on, the number of arrivals reported for a day is the number of agents that reached a camp at the end of a link on that day (not those turned back to a camp), and the reported travel time is the mean number of days since these agents were displaced. Days without arrivals report zero.",
     ["histories"],
     "all simulations with camps that open, close and change under way",
     "Tests do not look at arrival statistics.",
     [M], [("aggregation", "flee/flee.py Ecosystem._aggregate_arrivals, Location.IncrementNumAgents")],
     "arrivals and mean times are recomputed from recorded moves every day", "Exploration; exact.")
prop("C27", "Runs are reproducible and independent of earlier runs",
     "Two runs with equal inputs and equal random seeds give identical results on every day: numbers per place and link, arrivals and every agent's position and attributes. This holds in a fresh interpreter, whatever its hash seed, and also if other, unrelated simulations ran before in the same process.",
     ["inputs", "histories", "configurations"],
     "all complete inputs, seeds, hash seeds and preceding simulations",
     "Tests never run the same simulation twice.",
     ["flee/spawning.py", "flee/SimulationSettings.py", M, "flee/InputGeography.py"], [("random choices", "flee/flee.py, flee/moving.py, flee/spawning.py"), ("process-wide state", "flee/SimulationSettings.py, flee/spawning.py")],
     "day-by-day states of repeated runs are compared bit by bit", "Exploration; exact. Two simulations that are interleaved day by day in one process are not covered.")
prop("C32", "Camps as sinks retire agents with the configured probability",
     "If camps act as sinks, every agent that is in a camp after a day's movement retires with that camp's deactivation probability, given as number or text, and with none otherwise. Retired agents never move again and disappear from the logs, but still count in the camp's and the total population. If camps are not sinks, nobody retires.",
     ["configurations", "histories"],
     "all probabilities, camps and simulations",
     "Tests do not enable sinks with a probability between 0 and 1.",
     [M], [("retirement", "flee/flee.py Ecosystem.evolve")],
     "retirements are recorded and compared with the binomial law (6.5 sigma); retired agents are followed", "Exploration; statistical for the probability, exact otherwise.")

EXTRA = os.path.join(HERE, "tools", "extra_props.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))  # pylint: disable=exec-used

P.sort(key=lambda p: p["id"])
P = [p for p in P if os.path.exists(os.path.join(HERE, "harness", "checks", p["id"].lower() + ".py"))]
with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                   "technique": MON + p["tech"], "level": "exploration", "level_note": p["note"]} for p in P],
       "not_applicable": [],
       "notes": "No hooks in /repo: the monitors wrap attributes and functions from outside (see DESIGN.md). VERIF_SEED selects the cases."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")

# DESIGN.md: the table of properties
import importlib  # noqa: E402
import re  # noqa: E402
import sys  # noqa: E402

sys.path.insert(0, os.path.join(HERE, "harness"))
rows = []
for p in P:
    src = open(os.path.join(HERE, "harness", "checks", p["id"].lower() + ".py"), encoding="utf-8").read()
    ns = {}
    m = re.search(r"^RULE = \((.*?)^(?=[A-Z])", src, re.S | re.M)
    rule = eval("(" + m.group(1).strip()) if m else ""  # pylint: disable=eval-used
    cases = eval(re.search(r"^CASES = (\[.*?\])$", src, re.S | re.M).group(1))  # pylint: disable=eval-used
    rows.append("### %s %s\n\n*Monitor*: %s.  *Workload and oracle*: %s.  *Cases (quick/thorough)*: %s.  *Bounds*: %s  *Reach beyond the tests*: %s\n" % (
        p["id"], p["title"], p["tech"], rule, ", ".join("%s %d/%d" % c for c in cases), p["note"], p["why"]))
path = os.path.join(HERE, "DESIGN.md")
d = open(path, encoding="utf-8").read()
start, end = "## Properties and their monitors\n", "## Genuine defects"
d = d[:d.index(start) + len(start)] + "\n" + "\n".join(rows) + "\n" + d[d.index(end):]
with open(path, "w", encoding="utf-8") as f:
    f.write(d)
