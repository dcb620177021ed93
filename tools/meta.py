"""The properties (source for properties.jsonl and MANIFEST.json)."""

PBT = "property-based testing (Hypothesis): "
TRUST = " Trusts Hypothesis' generators and shrinker, CPython, and the oracle in checks/%s.py."

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, for_all, why, files, mech, technique, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files,
                      mech=mech, technique=PBT + technique, note=note + TRUST % id.lower(), state=list(state)))


P("C01", "Every agent is in exactly one place and every count is exact",
  "After every simulated day and after every change to the simulation (adding, spawning or clearing agents, closing, "
  "re-opening or removing routes, borders and locations, changing location types), the agent count reported by each "
  "location and each link, including closed ones, equals the number of agents actually there, and the total equals the "
  "number of agents in the simulation. Simulated days and network changes never create, lose or duplicate an agent, a "
  "new agent appears at the place it was created at with that place as its home, and clearing removes exactly the "
  "agents standing at the named locations. Agents deactivated in a sink camp stay counted at that camp and never move "
  "again; the reported IDP total is the sum of the counts of the IDP camps.",
  ["histories", "configurations"],
  "every history of days, insertions, spawning, closures, re-openings, removals, type changes, camp openings and "
  "clearings over every small network and every combination of movement settings",
  "The tests follow a handful of fixed scenarios and print the counts; whether an increment is matched by a decrement "
  "depends on the order of closures, arrivals and removals across a history.",
  ["flee/flee.py"],
  [("counter updates on departure, arrival and re-routing", "flee/flee.py: Person.evolve, Person.finish_travel, Person.evolveMore"),
   ("two-phase day", "flee/flee.py: Ecosystem.evolve"),
   ("bulk removal of agents", "flee/flee.py: Ecosystem.clearLocationsFromAgents"),
   ("sink camps", "flee/flee.py: Person.handle_deactivation / Location attributes")],
  "random operation histories, exact bookkeeping invariant after every operation",
  "7000+ histories per quick run, each judged after every operation against the agents themselves.",
  [("per-place counter", "agents at a location or on a link", "flee/flee.py: Location.numAgents, Link.numAgents")])

P("C02", "Agents travel only along existing links at the permitted speed",
  "On each link an agent covers the distance its speed allows per day (the maximum move speed, a link's own maximum if "
  "it has one, or the walking/crossing speed when on foot), is in transit until that distance exceeds the link length, "
  "and then arrives at the endpoint of that link. An agent's travel log is a connected sequence of links of the network "
  "from where it set out, and an agent on its way along a planned multi-step route follows the links of that route. On a "
  "link with a walk probability each agent decides every day for itself, with that probability, to go on foot.",
  ["histories", "configurations"],
  "every network, speed setting, on-foot setting, link attribute and number of days, over every journey that agents make",
  "The tests look at a few agents on one or two links of fixed length; chains of short links on one day, short-stint "
  "avoidance and walking links interact only in other combinations.",
  ["flee/flee.py", "flee/moving.py"],
  [("per-day progression on a link", "flee/flee.py: Person.finish_travel"),
   ("speed selection", "flee/flee.py: Person.take_up_travel / evolve"),
   ("several hops in one day", "flee/flee.py: Person.evolveMore")],
  "journeys replayed against a reference transport model",
  "Each generated journey of each agent is re-computed day by day from the documented speeds.")

P("C03", "Whether an agent leaves its location follows the move chance",
  "Each day a resident agent sets out with exactly the move chance of its location: the chance configured for the "
  "location's type (or given explicitly), scaled by the location's population if population scaling is configured. "
  "An agent that arrived earlier stays put at chance 0 and sets out at chance 1 whenever there is a way to go. Each agent "
  "decides for itself: independently of other agents and of earlier days.",
  ["configurations", "inputs"],
  "every location type, configured move chance, explicit move chance, population base and scale factor, and every "
  "value of the random draw",
  "The tests use default move chances of a few types; the threshold is random, so no fixed scenario shows which side of "
  "it a draw falls on.",
  ["flee/moving.py", "flee/flee.py"],
  [("move chance computation", "flee/moving.py: calculateMoveChance"),
   ("type dependent default", "flee/flee.py: Location.__init__")],
  "random configurations with a controlled uniform draw, compared with the documented threshold",
  "The uniform draw is controlled, so the decision threshold itself is compared, not a frequency.")

P("C04", "The routes an agent considers are exactly the simple paths in its awareness",
  "An agent choosing where to go considers every simple path of non-closed links whose number of steps is within its "
  "awareness level, and nothing else; passing through a marker does not use up a step and a marker is never a "
  "destination. The weight of each path is the documented formula of destination score, total path length, distance "
  "softening and power, weight softening and power, and remaining camp capacity.",
  ["inputs", "configurations"],
  "every small network (with markers, parallel chains, cycles and camps), start location, awareness level and weighting "
  "setting",
  "The tests have three or four locations in a star; cycles, markers in a chain and awareness above one are not "
  "enumerated against an independent path search.",
  ["flee/moving.py"],
  [("recursive route search", "flee/moving.py: calculateLinkWeight / selectRoute"),
   ("weights", "flee/moving.py: getEndPointScore, getCapMultiplier")],
  "random networks, differential against an independent brute-force path enumeration",
  "The complete weighted option list is compared with a brute-force enumeration on each generated network.")

P("C05", "Agents choose a route with probability proportional to its weight",
  "Among the routes considered, route pruning discards exactly those whose weight is below the best weight divided by "
  "the pruning threshold, and an agent takes each remaining route with probability proportional to its weight (all "
  "equally likely when every weight is zero; uniformly over the links at awareness level 0), independently of other "
  "agents and days. With no route the agent "
  "stays where it is, and otherwise it follows the route that was drawn, link by link.",
  ["inputs", "configurations"],
  "every list of route weights, pruning threshold and random draw, and every network on which a choice is made",
  "A test can only sample a few choices; the correspondence between option list, weights and the drawn index needs "
  "every ordering and tie.",
  ["flee/moving.py", "flee/flee.py"],
  [("pruning", "flee/moving.py: pruneRoutes"), ("normalised draw", "flee/moving.py: normalizeWeights / chooseFromWeights"),
   ("route kept by the agent", "flee/flee.py: Person.evolve")],
  "random weight lists and networks, distribution recovered from controlled draws",
  "The choice distribution is checked exactly on weights, statistically only where the draw cannot be controlled.")

P("C06", "A camp's remaining capacity throttles how attractive it is",
  "The attractiveness multiplier of a location with a capacity is 1 while its occupancy is at most the buffered share of "
  "the (scaled) capacity, 0 from the full capacity on, and falls linearly in between; locations without a capacity "
  "always have 1. No agent sets out for a camp that was full, and that nobody leaves, when the day began.",
  ["inputs", "histories", "configurations"],
  "every occupancy, capacity, capacity buffer and capacity scaling, and every crowded simulation with such camps",
  "The tests evaluate three or four points of the function and never let a camp fill up during a simulation with "
  "different awareness levels.",
  ["flee/moving.py", "flee/scoring.py"],
  [("capacity multiplier", "flee/moving.py: getCapMultiplier"), ("use in route weights", "flee/moving.py: calculateLinkWeight")],
  "reference formula on random points, invariant over random crowded histories",
  "Numerical agreement to 1e-6 at random points including both kinks; history invariant per departure.")

P("C07", "Location scores reflect conflict, camp and foreign weights",
  "The score of every location in use each day is the product of the configured foreign weight (if abroad), camp weight "
  "(if a camp) and conflict weight raised to the decayed conflict intensity (if in conflict), starting from 1. "
  "It follows changes of conflict, type and time: after each simulated day scores agree with the state of that day.",
  ["histories", "configurations"],
  "every combination of location types, foreign flags, weights, conflict intensities, decay tables and histories of "
  "changes",
  "The tests check one or two scores after construction, not after a history of changes.",
  ["flee/scoring.py", "flee/flee.py"],
  [("score computation", "flee/scoring.py: updateLocationScore"),
   ("decay of conflict", "flee/spawning.py: getConflictDecay"),
   ("daily refresh", "flee/flee.py: Location.time_update")],
  "random histories of conflict and type changes, differential against the documented formula",
  "Scores compared after every operation with a reference computed from the settings.")

P("C08", "Closed links are never taken; closing and re-opening act exactly",
  "Closing or re-opening a route, a location or a border, in one or both directions, changes exactly the links between "
  "the named places and nothing else; removing a link takes exactly that link away for good. No agent sets out along a "
  "closed or removed link, an agent already on a link that is closed goes back to the start of that link when it "
  "arrives, and a re-opened link can be used again with its original length and attributes.",
  ["histories", "inputs"],
  "every network over several countries (with parallel links) and every history of closures, re-openings, removals and "
  "days",
  "Tests close one or two links of a fixed map once; the errors lie in overlapping closures (a border and one of its "
  "links), in links sharing endpoints, and in agents that are under way at the time.",
  ["flee/flee.py", "flee/InputGeography.py"],
  [("close and re-open operations", "flee/flee.py: Ecosystem.close_link/reopen_link/close_border/close_location/_change_location_1way"),
   ("agents on closed links", "flee/flee.py: Person.finish_travel")],
  "random closure histories, set model of the usable links compared after every operation",
  "The model is a set of usable links; each day every departure is checked against it.",
  [("usable and closed links", "links that may be taken / that are closed", "flee/flee.py: Location.links, Location.closed_links")])

P("C09", "closures.csv takes effect on exactly the days it lists",
  "A closure listed in closures.csv (location, link, country, camp or IDP camp) is in force from its start day on, up to "
  "but not including its end day (end day 0: for ever), whatever other rows there are for other places; before and "
  "afterwards the links, camp list and move chances are those without that closure.",
  ["inputs", "histories"],
  "every set of rows of all closure types, start and end days, overlaps and maps",
  "Tests have one closure of each type; off-by-one days and interacting rows show only over whole schedules.",
  ["flee/flee.py", "flee/InputGeography.py"],
  [("reading closures", "flee/InputGeography.py: ReadClosuresFromCSV"),
   ("daily enforcement", "flee/flee.py: Ecosystem.enact_border_closures")],
  "random closure files, day-by-day differential against a set model",
  "Every day of every schedule is compared.")

P("C10", "Conflicts start, change and end on the days the input files say",
  "On every day the locations in conflict, and their intensities, are those of that day's column in conflicts.csv or, "
  "without that table, of the conflict dates and intensities in locations.csv; spawn weight, score and move chance "
  "follow on the same day. The decay of a conflict is counted from the day the conflict last started or changed intensity.",
  ["inputs", "histories"],
  "every table of daily intensities, set of conflict dates and decay setting",
  "The tests have conflicts that start once and never change; conflicts that change intensity, end, and start again on "
  "later days are not sampled.",
  ["flee/InputGeography.py", "flee/flee.py", "flee/spawning.py"],
  [("conflict schedule", "flee/InputGeography.py: ReadConflictInputCSV, getConflictLocationNames, AddNewConflictZones"),
   ("start and end of a conflict", "flee/flee.py: Ecosystem.set_conflict_intensity / remove_conflict_zone")],
  "random conflict tables and dates, differential against a model that reads the tables directly",
  "Every location on every day of every case.")

P("C11", "A location whose type changes behaves like its new type",
  "From the day a location's type is changed (through location_changes.csv or directly) or a camp is opened or closed, "
  "its camp status and membership of the camp list, move chance, spawn weight, score, IDP total and the routes it offers "
  "to others are those of a location of its new type; other locations are not affected.",
  ["histories", "inputs"],
  "every history of type changes between all types, camp openings and closings, and days",
  "The tests change one location once and look at a flag; each derived quantity is cached in a different place.",
  ["flee/flee.py", "flee/InputGeography.py"],
  [("type change", "flee/flee.py: Ecosystem.change_location_type, Location.town/conflict flags"),
   ("scheduled changes", "flee/InputGeography.py: UpdateLocationAttributes / location_changes.csv")],
  "random histories of type changes, every derived quantity compared with that of the type",
  "Camp list, move chance, spawn weight, score, IDP total and offered routes each day.")

P("C12", "Data-driven arrivals match the data, with decreases carried as debt",
  "Each day as many new agents appear in the conflict zones as the validation data increases from the day before (summed "
  "over the camps, or from the total file if so configured), less the outstanding decrease of earlier days, which is "
  "reported as the debt; the raw count reported is the sum of all changes. At the start every camp holds what the data says "
  "for day 0 (nothing if camps start empty) plus its initial IDPs; the capacity of a camp is the one given, less the people "
  "of day 0 if camps start empty (but never unlimited because of it); and with take_from_population each new agent reduces "
  "its location's population by one.",
  ["inputs", "configurations"],
  "every rising and falling data series, date layout, scale-down factor and combination of spawning settings",
  "The tests use monotonic data; the debt mechanism only acts after a decrease, in combination with each switch.",
  ["flee/spawning.py", "flee/datamanager/handle_refugee_data.py"],
  [("daily spawning from data", "flee/spawning.py: spawn_daily_displaced"),
   ("initial camp populations", "flee/spawning.py: add_initial_refugees")],
  "random data files, differential against independent bookkeeping",
  "Counts, debt and raw count compared on every day; day-0 total counted twice is a known finding.",
  [("debt", "decrease not yet compensated", "flee/spawning.py: __refugee_debt")])

P("C13", "Conflict- and flood-driven displacement has the configured size",
  "With conflict-driven spawning each day every location in conflict produces the configured number of agents times its "
  "intensity (constant), that rate times its population times its intensity (pop_ratio), or a Poisson count with the "
  "constant's mean that is drawn anew for every location and day; with flood-driven spawning the entry for its flood level takes the place of rate times intensity. "
  "Locations without conflict or flood produce none, the reported number of new agents is what appeared, and with "
  "take_from_population the population falls accordingly.",
  ["inputs", "configurations"],
  "every table of intensities or flood levels, mode, rate and population",
  "The tests only run one such configuration for its total; modes, levels and population taking combine per location.",
  ["flee/spawning.py"],
  [("displacement rates", "flee/spawning.py: spawn_daily_displaced, get_conflict/flood displacement"),
   ("population taking", "flee/flee.py: Ecosystem.addAgent")],
  "random intensity and level tables, per-location differential against the documented rate",
  "Exact in the constant and pop_ratio modes; the Poisson mode is judged at 6-7 standard deviations over 40-1500 days.")

P("C14", "New agents start in places in proportion to their spawn weight",
  "The spawn weight of every location is population times conflict intensity times conflict decay (zero outside "
  "conflicts, and zero with conflict- or flood-driven spawning), as of the last refresh or change of conflict or type. "
  "Spawned agents start in locations drawn with probability proportional to that weight.",
  ["histories", "inputs"],
  "every history of conflicts, type changes, population changes and days, every decay table and weight vector",
  "The tests have one or two conflict zones, for which a wrong proportion is invisible.",
  ["flee/spawning.py", "flee/flee.py"],
  [("spawn weights", "flee/spawning.py: refresh_spawn_weights"),
   ("drawing locations", "flee/flee.py: Ecosystem.pick_spawn_location(s)")],
  "random histories compared with the documented weight; drawn samples against weights",
  "Weights are compared exactly; the draw is judged at 6 standard deviations over 500-1500 draws.")

P("C16", "Agents get attributes as the demographics files or agents.csv say",
  "Every new agent has exactly the attributes for which there is a demographics file, each with a value drawn with the "
  "weights of its home location's column (the Default column if it has none), whichever way it was created. Agents read "
  "from agents.csv start at the location, and with the attributes, of their row; rows for unknown locations and comments "
  "create none.",
  ["inputs"],
  "every set of demographics tables and agents.csv files (empty lines, comments, unknown locations)",
  "Tests check one demographics file for one value.",
  ["flee/spawning.py", "flee/InputGeography.py"],
  [("attribute draw", "flee/spawning.py: read_demographic_csv, draw_samples, add_initial_refugees"),
   ("agents.csv", "flee/InputGeography.py: ReadAgentsFromCSV")],
  "random demographics tables and agents.csv files; support checked exactly, frequency at 6 standard deviations",
  "Attribute names without underscores only (the name is taken from the file name).")

P("C17", "Refugee counts are read, interpolated and differenced correctly",
  "On a day listed in a data file the count of a camp is the number in the file divided by the scale-down factor; between "
  "two listed days it is interpolated linearly (or kept constant without interpolation), before the first and after "
  "the last it is the first and last value. The daily differences add up to the change of the total over the period, and "
  "a table that starts empty is offset by its values of day 0.",
  ["inputs"],
  "every set of data files, dates before, in and after the simulated period, leap years and scale-down factors",
  "The tests read one bundled data set and assert a few values.",
  ["flee/datamanager/handle_refugee_data.py", "flee/datamanager/DataTable.py"],
  [("interpolation", "flee/datamanager/handle_refugee_data.py: RefugeeTable.get_field / get_interpolated_data"),
   ("daily difference", "flee/datamanager/handle_refugee_data.py: get_daily_difference")],
  "random data files, differential against an independent reader",
  "Two known findings (day-0 total when summing from camps; start_empty total).")

P("C18", "Registration corrections and multiple data files are applied correctly",
  "A correction for a camp and date multiplies all earlier entries of that camp by the ratio of the entry of that date to "
  "the one before, leaves every other entry as it is, and does nothing for a date without an entry; successive "
  "corrections compound. A camp with several data files has the sum of their counts on every date at which "
  "they all have entries, and the maximum of a series is over the entries up to the first one at or after the given day.",
  ["inputs"],
  "every series, list of corrections and set of files with equal or different dates",
  "No test applies more than one correction, or sums files with different dates.",
  ["flee/datamanager/handle_refugee_data.py"],
  [("corrections", "flee/datamanager/handle_refugee_data.py: correctLevel1Registrations, ReadL1Corrections"),
   ("summing files", "flee/datamanager/handle_refugee_data.py: AddCSVTables"),
   ("maximum", "flee/datamanager/handle_refugee_data.py: getMaxFromData")],
  "random series and corrections against exact rational arithmetic",
  "Where only one of the summed files has an entry, any neighbouring value of the other is accepted.")

P("C19", "The simulated network is exactly the one written in the input files",
  "Every location row becomes one location with that name, region, country, coordinates, type, capacity, scaled "
  "population and extra-column attributes, foreign exactly if its country differs from that of the first location; every "
  "route row becomes one link of that length and with those extra-column attributes in each direction, marked for forced "
  "redirection only in the direction given. Comments and blank lines are ignored and empty optional fields take their defaults.",
  ["inputs"],
  "every set of locations.csv, routes.csv and closures.csv with all location types, missing fields and custom columns",
  "The tests read the bundled example only and check counts.",
  ["flee/InputGeography.py", "flee/flee.py"],
  [("reading", "flee/InputGeography.py: ReadLocationsFromCSV, ReadLinksFromCSV"),
   ("construction", "flee/InputGeography.py: StoreInputGeographyInEcosystem")],
  "random input files, field-by-field round trip into the ecosystem",
  "Compared against the generated rows, not against the parser.")

P("C20", "The settings in force are those of the settings file, else the defaults",
  "After reading a settings file every option has the value given there, or its documented default if the file does not "
  "mention it, whatever was read before; whether spawning is driven by data, conflicts or floods, with which mode and "
  "rates, follows from its sections. Contradictory or incomplete files are refused instead of being run with other settings.",
  ["inputs", "histories"],
  "every subset of the options with valid values, files read one after another, and the contradictory combinations",
  "Tests read three or four files with few options; a missing default or a value kept from an earlier file shows only "
  "in another combination.",
  ["flee/SimulationSettings.py"],
  [("parsing", "flee/SimulationSettings.py: ReadFromYML and fetchss")],
  "random sequences of settings files compared with the file and a table of documented defaults",
  "The table of defaults is written from docs/ and the code, option by option.")

P("C21", "Fixed routes are the best routes of the day, and agents follow them",
  "With fixed routes every location has each day, for each destination reachable by open links within the awareness "
  "level (markers free, none from a marker), one route of the highest weight over all loop-free paths, with the documented "
  "weight for the scores, floods and closures of that day. Major routes from the routes file, in both directions, are added "
  "for destinations not reachable otherwise, from their start or via a route to their start, at a quarter of the "
  "distance; an agent that sets out does so on one of the routes stored at its location.",
  ["inputs", "histories", "configurations"],
  "every small network (markers, cycles, parallel links), set of major routes, weighting setting and history of days, "
  "conflicts, floods and closures",
  "The test crawls one network of five locations once and checks which names occur.",
  ["flee/crawling.py", "flee/flee.py", "flee/moving.py"],
  [("route search", "flee/crawling.py: generateLocationRoutes / calculateLocCrawlLinkWeight"),
   ("major routes", "flee/crawling.py: insertAllMajorRoutesAtLocation"),
   ("daily generation", "flee/flee.py: Ecosystem.evolve")],
  "random networks and histories, differential against a brute-force path search",
  "A major route may be stored without its first waypoint (known finding, pinned by a test).")

P("C22", "The agent and link logs and the camp arrival statistics tell what happened",
  "With logging on, the agent log has one row per agent and day with its location or link, home, coordinates, distance "
  "travelled, places visited and attributes (and, at higher levels, one row per place passed through that day), and the "
  "link log one row per link and day with the number of agents that have set out on it so far, in total and per "
  "attribute value; both agree with the movements of the agents. The number and average travel time of the day's camp "
  "arrivals are those of the agents that reached a camp that day.",
  ["inputs", "histories", "configurations"],
  "every history of agents, days, closed links and sink camps, and every log level and granularity",
  "No test reads a log file back.",
  ["flee/Diagnostics.py", "flee/flee.py"],
  [("log writers", "flee/Diagnostics.py"),
   ("per-agent trail", "flee/flee.py: Person.finish_travel, Person.evolve"),
   ("arrival statistics", "flee/flee.py: Ecosystem.evolve (num_arrivals, travel_durations)")],
  "random simulations; every row of the written files compared with the states of the agents before and after each day",
  "The logs are judged against the observed states, never against the writer's own variables.")

P("C23", "A parallel run keeps each agent on one process and agrees on every count",
  "For any number of processes, parallel mode and latency mode, after every day and every insertion, spawning, closure, "
  "type change or clearing each agent lives on exactly one process, and on every process the count of every location and "
  "link, the total number of agents and the number of IDPs are exactly those of the agents of all processes together. "
  "No day creates or loses an agent, spawning adds the number of agents requested in total, and the agent logs of all "
  "processes together have one row per agent and day.",
  ["histories", "schedules", "configurations"],
  "every number of processes, mode, order of execution, random numbers per process, network and history of operations",
  "The parallel tests need MPI, are not part of the test suite, run one scenario and print the counts.",
  ["flee/pflee.py", "flee/flee.py", "flee/Diagnostics.py"],
  [("agent distribution", "flee/pflee.py: Ecosystem.addAgent / insertAgent"),
   ("count reduction", "flee/pflee.py: Ecosystem.updateNumAgents, numAgents, numIDPs"),
   ("parallel day", "flee/pflee.py: Ecosystem.evolve")],
  "random histories on 1-5 processes of a simulated MPI that detects mismatched collectives and deadlock",
  "The real pflee.py runs in one thread per process on an in-process stand-in for mpi4py (lib/simmpi.py).")

P("C24", "A parallel run decides exactly as a serial run does",
  "For any number of processes, parallel mode and latency mode, the parallel code gives every location on every process "
  "the score, spawn weight, fixed routes, move chance and capacity factor, and every agent the routes with their weights, "
  "that the serial code gives for the same network, settings and history. With settings that leave nothing to chance, "
  "all agents together are where the serial run has them after every day (place, distance on the link, places visited, "
  "route, days since departure, home). In between, agents set out with the move chance the serial code uses, each for "
  "itself, whichever process they are on.",
  ["histories", "schedules", "configurations"],
  "every number of processes, mode, order of execution, network, setting and history of days, floods, conflicts, "
  "closures, openings and insertions",
  "The test suite never runs the parallel code on more than one process and compares it with nothing.",
  ["flee/pflee.py", "flee/flee.py", "flee/scoring.py", "flee/moving.py", "flee/crawling.py"],
  [("scores computed per process and exchanged", "flee/pflee.py: Ecosystem.evolve, synchronize_locations"),
   ("scores read from the shared array", "flee/pflee.py: Location.getScore, Link.getBaseEndPointScore"),
   ("counts used by capacity rules", "flee/pflee.py: Ecosystem.updateNumAgents")],
  "differential: the parallel code on 1-5 processes of a simulated MPI against the serial code",
  "Where agents draw random numbers, departures are compared under one forced draw and by statistics, route choices by what the draws are compared with.")

P("C25", "Coupled models exchange exactly the agents at the coupled locations",
  "Each coupling day every model sends, for each location coupled outward, the number of agents there, waits until all "
  "instances of the other model have sent theirs completely, then holds at each location coupled inward the rounded mean "
  "of what they sent, none at locations coupled only outward, and leaves every other location and all travellers alone; "
  "this is so for file exchange and message exchange, serial and parallel models, and any interleaving of the models. "
  "Ghost locations are exactly the conflict zones without routes; the exchange logs record what was sent and their figures "
  "show it, and the summary file is the mean of the instances' output.",
  ["schedules", "histories", "configurations"],
  "every interleaving of the instances, number of instances and processes, set of coupled locations, direction, interval "
  "and history of agents",
  "No test runs the coupling code; what a model reads depends on when the other one writes.",
  ["flee/coupling.py", "flee/flee.py", "flee/pflee.py"],
  [("exchange of a day", "flee/coupling.py: CouplingInterface.Couple"),
   ("file exchange", "flee/coupling.py: writeOutputToFile, waitForInputFiles, readInputFromFile"),
   ("ghost and micro conflict locations", "flee/coupling.py: addGhostLocations, addMicroConflictLocations"),
   ("exchange logs, figures and summary", "flee/coupling.py: logExchangeData, logNewAgents, saveExchangeDataToFile, "
    "readCSVLogFiles, plotExchangedData, sumOutputCSVFiles")],
  "random models run concurrently under a controlled scheduler that switches at any line of the coupling code",
  "MUSCLE3 channels are stand-ins that record and prepare messages; the weather coupling is not covered.")

P("C27", "Validation measures and reports state the simulation's error",
  "The relative and absolute errors, mean absolute differences, log accuracy ratio and scaled error (error of the forecast "
  "over all days divided by that of the naive forecast after its training period) equal their definitions to four digits, "
  "with a relative error of 0 where there is no data. For every simulation output the validation script prints, per camp "
  "and overall, the averages of those measures, and the plotting tool prints and draws the averaged relative difference "
  "(sum of the camps' differences divided by all refugees in camps), as is and rescaled to the total in the data, and "
  "draws one figure per camp with exactly its simulated and registered numbers.",
  ["inputs"],
  "every pair of simulated and registered numbers, and every output table: number of camps and days, zeros, optional columns",
  "No test runs the validation or plotting code.",
  ["flee/postprocessing/analysis.py", "flee/postprocessing/extract-validation-results.py",
   "flee/postprocessing/plot_flee_output.py"],
  [("error functions", "flee/postprocessing/analysis.py"),
   ("validation report", "flee/postprocessing/extract-validation-results.py: plotme, SimulationErrors"),
   ("figures", "flee/postprocessing/plot_flee_output.py: plot_camps, plot_numagents, plot_errors")],
  "random output tables; printed figures and the data of the saved figures recomputed from the table",
  "The naive 'sloped' variants, the uncertainty and comparison plots are not covered.")

P("C30", "The run scripts simulate the scenario in the input files and print its table",
  "run.py and run_par.py, on any number of processes, print nothing but one table: a header and one row for each day from "
  "the start date to the length in sim_period.csv or the one given on the command line, with the settings file given or "
  "simsetting.yml.  Each row states for every camp the number of people there, the registered number (scaled, corrected, "
  "without the day 0 population if camps start empty) and their relative error, then the total error, the totals in the "
  "camps and in the simulation, the raw count and the debt.  Where all routes lead straight to camps, people are spawned on "
  "the day, in the zone and in the number that data, conflicts or floods imply, wait for closed borders, and are counted in "
  "camps from the day on which the distance is covered.",
  ["inputs", "configurations"],
  "every scenario: data files, conflicts, floods, closures, distances, settings, corrections, agents file, processes",
  "No stable test runs the scripts; the end-to-end result depends on the order and the arguments of all the steps.",
  ["runscripts/run.py", "runscripts/run_par.py", "flee/datamanager/read_period.py", "flee/spawning.py"],
  [("daily loop and table", "runscripts/run.py, runscripts/run_par.py"),
   ("simulation period", "flee/datamanager/read_period.py: read_sim_period"),
   ("initial and daily displaced", "flee/spawning.py: add_initial_refugees, spawn_daily_displaced")],
  "random scenarios whose outcome is predicted day by day by a closed-form model; serial and simulated-MPI runs of the scripts",
  "Networks are bipartite (zones to camps) so that the day of arrival does not depend on random choices.")

P("C29", "Flooded locations get the move chance and the attractiveness of their level",
  "On every day the flood level of each location is that of its column in the flood level file for that day, and 0 for "
  "locations without a column. At a level above 0 an agent there sets out with the move chance listed for the level, "
  "whatever the location's type and population, and the weight of every route that ends there is multiplied once by the "
  "weight listed for the level; at level 0 the regular rules apply, whatever the first entries of the lists are.",
  ["inputs", "configurations"],
  "every flood table, network, list of move chances and weights, and day",
  "The tests read two flood files and check levels, not what floods do to agents.",
  ["flee/moving.py", "flee/scoring.py", "flee/InputGeography.py"],
  [("levels of the day", "flee/InputGeography.py: ReadAttributeInputCSV, UpdateLocationAttributes, AddNewConflictZones"),
   ("move chance and weight by level", "flee/moving.py: calculateMoveChance, getEndPointScore; flee/scoring.py")],
  "random networks and flood tables; forced draws for departures, all route weights against the reference formula",
  "What a flood forecast changes is judged in C35.")

P("C28", "A run depends only on its input files, settings and random seed",
  "Running the same input directory with the same random seed gives the same table and the same agent and link logs, byte "
  "for byte: in a new process, in a process that has run other simulations (with other settings, demographics, data and "
  "networks) before, after a run of the same scenario, and whatever the interpreter's hash seed.",
  ["histories", "configurations"],
  "every history of simulations run earlier in the process, and every scenario",
  "The tests run many simulations in one process but look at little of what they do.",
  ["runscripts/run.py", "runscripts/run_par.py", "flee/flee.py", "flee/pflee.py", "flee/spawning.py"],
  [("state shared between simulations", "flee/spawning.py: module variables; flee/pflee.py: Ecosystem.scores; "
    "flee/SimulationSettings.py: class dictionaries"),
   ("log files", "flee/Diagnostics.py")],
  "metamorphic: each random scenario is run alone, after others, and under other hash seeds, and the outputs compared",
  "Parallel runs are under the simulated MPI with one random generator per process.")

P("C31", "Distances, dates and the exported graph follow the map and the calendar",
  "The distance between two locations is the great-circle distance of their coordinates: symmetric, 0 for the same place "
  "and never longer than the way via a third place, anywhere on the globe.  The number of days between two dates and the "
  "date of a simulated day follow the calendar and undo each other, sim_period.csv gives the start date and length, and a "
  "day counts as interpolated exactly if the camp's data file has no entry for it.  The exported graph lists every "
  "location and exactly the usable links, in each direction, with their lengths, whatever was closed or re-opened before.",
  ["inputs", "histories"],
  "every pair of coordinates, pair of dates, number of steps and history of closures",
  "The tests compare one distance and two dates; leap years, the date line, poles and closed links are not sampled.",
  ["flee/flee.py", "flee/datamanager/DataTable.py", "flee/datamanager/read_period.py", "flee/postprocessing/analyze_graph.py"],
  [("great-circle distance", "flee/flee.py: Location.calculateDistance"),
   ("dates", "flee/datamanager/DataTable.py: subtract_dates, steps_to_date, is_interpolated; calc_date_difference.py"),
   ("graph export", "flee/flee.py: Ecosystem.export_graph; flee/postprocessing/analyze_graph.py: print_graph")],
  "random coordinates, dates and closure histories against vectors, a calendar counted by hand and a set model",
  "Distances of nearly opposite points are compared to half a kilometre, where the formula itself loses digits.")

P("C32", "Statistics and figures over several runs agree with the runs' output tables",
  "For any number of runs of one scenario the forecast plots write the mean and standard deviation of every camp's "
  "simulated and registered numbers per day, the table of all runs, and one figure per camp with every run, the data, the "
  "mean and the 5th and 90th percentiles.  The model comparison writes for every model its averaged error, rescaled error "
  "and duration, and draws every model's error per day and, per camp, every model's numbers and the data.",
  ["inputs"],
  "every number of runs, camps, days and camp names, and every output table",
  "No test runs this code.",
  ["flee/postprocessing/plot_flee_forecast.py", "flee/postprocessing/plot_flee_compare.py", "flee/postprocessing/plot_flee_output.py"],
  [("ensemble statistics", "flee/postprocessing/plot_flee_forecast.py: plot_flee_forecast"),
   ("model comparison", "flee/postprocessing/plot_flee_compare.py: compare_errors, compare_camps")],
  "random sets of output tables; written tables and the lines of the saved figures recomputed from them",
  "All runs of a case have the same camps, days and registered numbers; figures are read from the figure objects.")

P("C33", "The scenarios shipped with flee run with exact books under any settings",
  "For each scenario in conflict_input with its validation data, any settings, scale-down factor and number of days, run.py "
  "and run_par.py on any number of processes simulate every day and print one table row for it.  On every day the usable "
  "links are exactly those routes.csv and closures.csv give, agents set out only on usable links, the conflict zones are "
  "those of conflicts.csv, every count equals the number of agents there, and the row's data, errors, totals, debt and "
  "number of agents follow from the scenario's files.",
  ["inputs", "histories"],
  "every scenario, settings combination, number of days, seed and number of processes",
  "The tests run each scenario for a few days with one setting and look at no figure.",
  ["runscripts/run.py", "runscripts/run_par.py", "flee/InputGeography.py", "flee/spawning.py", "flee/datamanager/handle_refugee_data.py",
   "conflict_input", "conflict_validation"],
  [("main loop", "runscripts/run.py"), ("parallel main loop", "runscripts/run_par.py"),
   ("closures", "flee/flee.py: Ecosystem.enact_border_closures"), ("spawning", "flee/spawning.py: spawn_daily_displaced")],
  "scenario files x generated settings; state audited in every evolve call and the whole table recomputed from the files",
  "Movement itself is judged by C03-C08; scale-downs at which a registration correction has no value to divide by are left out.")

P("C34", "Sink camps take agents out of the simulation with their configured chance",
  "With camps_are_sinks every agent that is in a camp at the end of a day is deactivated with the camp's "
  "deactivation_probability, each agent for itself: never at 0 (or without the attribute), always at 1, and never in "
  "transit, in a location that is no camp on that day, or without that setting. A deactivated agent is not moved or changed "
  "any more and stays counted at its camp. All this holds for serial and parallel runs.",
  ["histories", "inputs"],
  "every network, probability, history of insertions and changes of location types, and number of processes",
  "No test uses sink camps at all; a chance shared between agents or a type change missed shows only in histories.",
  ["flee/flee.py", "flee/pflee.py"],
  [("deactivation", "flee/flee.py: Ecosystem.evolve"), ("parallel deactivation", "flee/pflee.py: Ecosystem.evolve")],
  "stateful histories with probabilities 0 and 1 judged exactly; daily counts against independent decisions",
  "Probabilities between 0 and 1 are judged at 6-7 standard deviations over 240 days.")

P("C35", "A flood forecast reaches exactly as far ahead as it is configured",
  "With flood_forecaster on, the move chance and the route weights of an agent depend on the flood level that "
  "flood_level.csv gives for a day to come exactly if that day is at most flood_forecaster_timescale days ahead and not "
  "after flood_forecaster_end_time and the agent's awareness level has a weight above 0: the level forecast for a location "
  "then matters for the move chance of the agents there and for the weights of the routes that end there, and for nothing "
  "else. With a timescale of 0, after the end time, or with the forecaster off, agents act as without a forecast; the weights "
  "of other awareness levels never matter.",
  ["inputs", "configurations"],
  "every network, flood table, forecast range and set of weights, day, location and future day",
  "The tests check that the levels are stored, and no effect of a forecast on an agent.",
  ["flee/moving.py", "flee/scoring.py", "flee/InputGeography.py"],
  [("move chance and route weight under a forecast", "flee/moving.py: calculateMoveChance, getEndPointScore"),
   ("attractiveness of flood zones", "flee/scoring.py: updateLocationScore"),
   ("forecast levels", "flee/InputGeography.py: UpdateLocationAttributes, AddNewConflictZones")],
  "metamorphic: tables that differ on one future day for one location, and settings that must not matter",
  "How much a forecast changes a chance or weight is not determined by docs/ and not judged; importance weights are positive.")
