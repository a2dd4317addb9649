NOTES = (
    "Every check drives the real Python code of /repo (imported through PYTHONPATH; nothing to build). "
    "The commercial solver is absent: shim/xpress.py executes the same models with scipy's HiGHS. "
    "No hooks in /repo are needed. Known findings: KNOWN_FINDINGS.txt."
)
T = "terragraph_planner/"
MAP = "bounded exhaustive enumeration of inputs against a reference model, on the real code"
BFS = "explicit-state breadth-first search over the real objects against a reference model"
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=[T + f for f in files], mech=mech, technique=technique, note=note, **kw))


P("C01", "The network topology stays self-consistent under every edit history",
  "After any sequence of additions and removals of sites, sectors, links and demand sites, lookups by identifier, by endpoint pair, by direction and by location all describe the same network. A removed site takes its sectors and links with it, an edit that is refused leaves the network unchanged, and no link or sector ever refers to a component that is not in the network.",
  ["histories"], "all edit histories up to depth 5 (quick) or 7 over five small alphabets of colliding components, from several non-initial seeds",
  "tests build a handful of fixed topologies; the indices can only disagree after particular orders of adding and removing colliding components",
  ["common/topology_models/topology.py", "common/topology_models/link.py", "common/topology_models/site.py"],
  [("redundant indices kept in step by every edit", "common/topology_models/topology.py: add_/remove_ methods")],
  BFS, "exhaustive within the stated depth and alphabets; every transition is the real edit call, every query compared with a dictionary model")

P("C02", "Status changes and identities of sites, sectors and links obey the rules",
  "A component that already exists or is declared unavailable never changes status, and a link or sector never carries a status that contradicts the status of its endpoints; a refused change leaves the status as it was. The identity of a site, sector or link is a function of its defining attributes, so equal components have equal identifiers and different ones differ. Rooftop sites, and only they, name their building, and node and sector numbers stay within what the device offers.",
  ["inputs", "histories"], "all triples of statuses, all pairs of site variants, all status-change histories to depth 2 (quick) or 4 on a two-site network",
  "the rules quantify over all pairs and orders of statuses; tests check a few",
  ["common/topology_models/site.py", "common/topology_models/sector.py", "common/topology_models/link.py", "common/configuration/enums.py", "common/utils.py"],
  [("status setters validate against the endpoints", "status_type setters of Site, Sector, Link"), ("hash based identifiers", "site_id, sector_id, link_id")],
  "full enumeration of the status tables plus " + BFS, "complete for single transitions and constructions; bounded depth for histories")

P("C03", "Distances, bearings, coordinates and link angles are geometrically correct",
  "Distances, bearings, angle differences, location hashes and coordinate conversions agree with spherical geometry and with each other in every hemisphere, across the antimeridian and at degenerate points. A link's length, azimuth, elevation angle and angular deviation from its sectors follow from the endpoint coordinates and sector directions, with both directions of one physical link mirroring each other.",
  ["inputs"], "full cross products of coordinate and angle lattices covering hemispheres, UTM zone borders, wrap-around angles and coincident points",
  "tests sample a few coordinates; sign, wrap-around and axis-order errors show only in particular quadrants or zones",
  ["common/geos.py", "common/topology_models/link.py"],
  [("geodesy helpers and lazy UTM conversion", "common/geos.py"), ("link geometry", "common/topology_models/link.py")],
  MAP, "exhaustive on the lattices; nothing is claimed between lattice points; WGS84 conversions are compared with an independent transverse Mercator formula")

P("C04", "A configuration file means what the template documents, or is rejected",
  "Every documented setting reaches the planner with the value given, whatever its letter case, surrounding spaces or section order, and absent or null settings take the documented default. Out-of-range, contradictory or misspelled settings raise a configuration error and never change another setting. Per-device settings apply to that device only.",
  ["configurations"], "every documented key x spelling x valid and invalid sample values, every pair of keys, every cross-key rule, every one-character deletion of a key name, device lists up to three devices",
  "tests load a few hand-written files; interference between keys and boundary values is not sampled",
  ["common/configuration/configs.py", "common/configuration/utils.py", "common/configuration/constants.py", "data/template.yaml"],
  [("flattening of nested sections and constructor validation", "common/configuration/utils.py, configs.py")],
  MAP, "exhaustive over the listed keys, spellings and sample values; pairs of keys, not triples")

P("C05", "Link budget, modulation level, transmit power and capacity follow the RF model",
  "For every device configuration, distance and pointing error, received power, signal-to-noise ratio, modulation level, transmit power and capacity are those of the documented propagation and antenna model: path, oxygen and rain loss, antenna patterns, power limits and per-level power backoff. The modulation level is the best one in the table that the signal supports within the power limit, capacity never grows with distance, and the maximum link length between two device types is the first distance with no capacity.",
  ["inputs", "configurations"], "every one- and two-parameter deviation of a device (three in thorough) x 16 distances x 4 EIRP limits; 6x6 antenna patterns x pointing errors; every modulation table over 5 levels x signal lattice",
  "tests check single numbers for one device; table gaps, backoff and power-limit interactions need combinations",
  ["common/rf/link_budget_calculator.py", "los/helper.py", "common/constants.py"],
  [("link budget estimation", "common/rf/link_budget_calculator.py: fspl_based_estimation"), ("binary search for the reach", "los/helper.py: get_max_los_dist_for_device_pairs")],
  MAP, "exhaustive over the parameter lattice; the oracle is written from the documentation; floating point within 1e-6")

P("C06", "Radio table files load to exactly the tables they contain, or are rejected",
  "A modulation table, scan pattern or antenna pattern file yields exactly the rows it lists, independent of column order, row order and header letter case, restricted to the modulation levels that the device's minimum level and minimum power allow. Malformed, incomplete or inconsistent files are rejected with a data error instead of producing a partial table.",
  ["inputs"], "all column permutations x header spellings x row orders x tables, 17 malformed files, all 3-row tables over a 2-value (3 in thorough) alphabet, scan and antenna files of a bounded grammar",
  "tests load single well-formed files",
  ["common/data_io/csv_library.py", "common/configuration/configs.py"],
  [("table readers", "common/data_io/csv_library.py: read_*_data")],
  MAP, "exhaustive over the stated grammar of files")

P("C07", "Site and link CSV files are read completely, named uniquely or rejected",
  "A site or link CSV file yields exactly the sites and links it lists, under every documented column name, any letter case and column order, with blank optional cells meaning not specified; ambiguous, missing or malformed columns are rejected with a data error. A site without a device becomes one site per compatible device, repeated sites collapse into one, and all sites keep distinct names by which they can be found; links join two different sites named in the file and both directions are created only where a node can transmit.",
  ["inputs"], "all documented column aliases x spellings x column sets, all row sequences to length 3, all link files to three rows in three formats, all column triples, all pairs of cell texts of each numeric column (triples in thorough), all site sequences to length 3 (4 in thorough) over 17 colliding rows, boundary lattice",
  "tests load a few well-formed files; clashes of columns, blanks and names depend on combinations and on row order",
  ["common/data_io/csv_library.py", "common/data_io/input_sites_loader.py", "common/data_io/input_sites.py", "common/data_io/utils.py"],
  [("site and link CSV readers", "common/data_io/csv_library.py"), ("device expansion and naming", "common/data_io/input_sites_loader.py, input_sites.py")],
  MAP, "exhaustive over the stated grammar of files; where a given name equals a name extended by the device, both rejection and acceptance with unique names are allowed")

P("C08", "KML topologies are read as drawn and survive being written and reloaded",
  "A KML or KMZ file yields exactly the sites, links, demand sites and polygons it draws, with the type and status of their folders, the altitude meaning of their altitude mode and their own data fields under any accepted name. Links attach to the named sites, or to the sites within ten metres of their ends, in every direction in which a node can transmit; contradictory or dangling links, or links from a site to itself, are rejected. A topology written to KML and loaded back has the same sites, wireless links, statuses, confidence levels (to one decimal) and demand sites; the file shows each component in the folder of its type and status with its measurements, the demand lines to active sites, and marks wireless links loaded above 80%.",
  ["inputs"], "all placemark field combinations and sequences to length 3, all two-level folder structures of the grammar, all pairs of named links, endpoint offset lattice around the 10 m limit, all polygon sequences to length 3, round trips of every site variant and of link families over three sites, written files of all status and measurement combinations of a link and its ends",
  "tests read a few prepared files; folder order, shared field schemas and special characters interact",
  ["common/data_io/kml_library.py", "common/data_io/utils.py", "common/data_io/topology_serializer.py", "common/data_io/input_sites_loader.py"],
  [("KML reading", "common/data_io/kml_library.py"), ("link end matching", "common/data_io/utils.py"), ("KML writing", "common/data_io/topology_serializer.py: write_to_kml_file")],
  MAP, "exhaustive over the stated grammar; wired links are not reloaded, by design")

P("C09", "A link has line of sight exactly when its clearance zone is free",
  "For every pair of positions, surface raster and validator setting, the line-of-sight decision and its confidence level are those of the documented geometry: links out of the allowed distance or elevation angle, between the same place or within one building, or crossing an exclusion zone have none; otherwise the confidence is the smallest obstruction-free fraction of the cylindrical or ellipsoidal Fresnel zone over every raster cell, and zero once it is below the threshold. The decision does not depend on the direction of the link.",
  ["inputs", "configurations"], "all positions of one obstruction on a lattice around the link x 10 link directions x slopes x thresholds x both models; pairs and triples of obstructions with cut rasters; distance/angle/altitude/building lattice; convex zone pairs",
  "tests check a handful of obstructions in one direction; errors of sign, octant, cell range and order need all directions and positions",
  ["los/base_los_validator.py", "los/cylindrical_los_validator.py", "los/ellipsoidal_los_validator.py", "los/fresnel_zone.py", "los/elevation.py"],
  [("validators", "los/*_los_validator.py: compute_confidence"), ("Fresnel zone geometry", "los/fresnel_zone.py"), ("cell selection", "los/elevation.py: get_all_obstructions")],
  MAP, "exhaustive over the stated lattice; the oracle scans every raster cell with closed formulas; cells exactly on the zone surface (ties within 1e-7) are not decided")

P("C10", "Elevation data answers with the nearest valid cell, however stored or combined",
  "For every raster, missing-data pattern, resolution and position, an elevation value is that of the nearest cell, or of the nearest valid cell within the search radius, or the average if there is none; windows return exactly the cells inside them. Resampling and adding or subtracting rasters of any resolution and alignment keeps values in place and missing cells missing or filled from their neighbours. GeoTIFF files, alone or as tiles in any order, load to the same values at the same places inside the bounding box, in any number type and with any no-data value, or are rejected when unreadable, without place, of several bands, too old, or of invalid pixel size.",
  ["inputs", "configurations"], "all 512 missing-cell patterns of 3x3 rasters (a third in quick) x positions inside and outside x pixel sizes; all windows of an 11-point lattice; all pairs of resolutions and offsets; all tilings and windows of small GeoTIFF files; six number types x no-data values x patterns; all combinations of collection times of up to three tiles",
  "tests use one raster each; indexing, clamping, alignment and missing data interact",
  ["los/elevation.py", "common/data_io/elevation_loader.py", "common/data_io/elevation_rules.py", "los/helper.py"],
  [("cell lookup and windows", "los/elevation.py"), ("GeoTIFF loading", "common/data_io/elevation_loader.py"), ("resampling", "los/helper.py: upsample_to_same_resolution")],
  MAP, "exhaustive over the stated lattices; ties between equally near cells accept either")

P("C11", "Sites are placed on buildings and poles where and as high as requested",
  "For every input site, the altitude is the one given, else the surface height plus the given height, mounting height or pole height of its type; its location type is inferred from surface and terrain only when unknown. For every building outline, the requested corners within the angle limits, the center and the highest point become rooftop sites with the surface altitude plus the mounting height and the identity of their building. Outlines from shapefiles and KML files in any coordinate system are read completely, with their holes, cut by the boundary, and dropped only if outside, invalid or too small; a surface made from them raises the terrain inside outlines, not in courtyards.",
  ["inputs", "configurations"], "all combinations of given altitude, height, types, rasters and positions; all simple lattice outlines with 3 to 5 vertices (7 in thorough) x surfaces x angle limits; all sets of up to two outlines (three in thorough) x boundaries x coordinate systems; all positions of lattice outlines on lattice boundaries, exact contact included; outlines with holes in four formats; all archive layouts of a grammar",
  "tests use one or two rectangles; concave outlines, raster edges, cut buildings and file layouts vary",
  ["los/helper.py", "los/building.py", "los/building_group.py", "common/data_io/building_group_loader.py", "common/data_io/building_group_rules.py"],
  [("input site altitude", "los/helper.py: infer_input_site_location"), ("site detection", "los/building.py, los/building_group.py"), ("building files", "common/data_io/building_group_loader.py")],
  MAP, "exhaustive over the stated grammar; where several corner cells qualify any of their altitudes is accepted")


P("C12", "The candidate topology holds exactly the sites and links the inputs allow",
  "For every combination of user sites, detected sites and base topology, exactly the pairs of sites that may be linked are tested once, and batched or parallel computation gives the verdict of the direct test for every pair. A link is created exactly when there is line of sight, outside every exclusion zone, within the distance limits of its two devices and the scan-angle limit, and carries that confidence. One best location is picked per building, DNs are added only where they connect a CN that nothing else reached, and the user's sites and a base topology stay as they were.",
  ["inputs", "configurations"], "all sequences of up to three site types x detected sites x base topologies; all pair sets of a site catalogue x orders x batch sizes; all line-of-sight graphs over the site patterns; all combinations of source, exclusion zones, elevation inputs, buildings, base, model and obstacle through the whole pipeline",
  "tests look at one small area with one setting; lost or doubled pairs, batches, caches and picks depend on the graph",
  ["los/core.py", "los/helper.py", "common/data_io/topology_serializer.py", "common/data_io/utils.py"],
  [("pair selection", "los/helper.py: get_los_topology"), ("batched computation", "los/core.py: compute_los"), ("site picks", "los/helper.py: pick_best_sites_per_building, select_additional_dns"), ("topology construction", "los/helper.py: construct_topology_from_los_result")],
  MAP, "exhaustive over the stated grammar; the line of sight of a pair is taken from the validators that C09 verifies; ties of best locations accept any")

P("C13", "Radios are oriented to cover the links they can, and links use the nearest radio",
  "For every site, device and set of neighbours, the planner deploys at most the allowed nodes, each with its sectors adjacent and no two nodes overlapping, covering as many neighbours as any such placement on the orientation grid and with the least weighted squared deviation. Every wireless link gets the nearest covering sector at both ends or none at all; sectors given by the user or already existing are validated and stay as they are. After the optimization every active link has an active sector within range on its own channel at both ends, within the sector limits and without new angle violations.",
  ["inputs", "configurations"], "all sets of up to three neighbours (four sampled by stride) of a 16-bearing lattice x 14 devices; all sector sets of a lattice against the site rules; all deviation pairs; all active subgraphs of up to five of twelve links x devices x limits x channels x existing sites, at a 15-degree grid and a part at the planner's 3 degrees",
  "tests look at a few orientations; wrap-around, ties with limits and multi-sector nodes depend on the geometry",
  ["optimization/topology_preparation.py", "optimization/topology_operations.py", "optimization/deployment_rules.py"],
  [("sector placement", "optimization/topology_preparation.py: find_best_sectors, find_best_equidistant_sectors"), ("sector assignment", "optimization/topology_preparation.py: add_sectors_to_links"), ("re-orientation", "optimization/topology_operations.py: readjust_sectors_post_opt")],
  MAP, "exhaustive over the stated lattices; placements are compared by coverage and weighted deviation with all placements of the grid")

P("C14", "Received power, interference and capacity of a plan follow the RF model",
  "For every network, the power, signal level, modulation and capacity of each link follow its device, distance and beam deviations. Interference on an active link is the sum, over every sector it can hear with a compatible polarity and channel, of the mean over the active non-redundant links that sector serves, with the beams pointed along the links; power control ends with every link at the lowest power for its modulation within its limits, and SINR and capacity are those of the final powers. Angle, near-far and sector-limit violations are found exactly as the deployment rules state.",
  ["inputs", "configurations"], "all sets of active links of five networks of 4 and 5 sites x polarities x channels x sector statuses x redundant links x six device pairs with directional patterns and power caps (a stride in quick); all pairs of arms of a bearing x length lattice for the rules; all multisets of up to three (four) arms for the limits",
  "tests compute a few links; which links interfere depends on the whole set of active links, sectors, polarities and channels",
  ["optimization/topology_interference.py", "optimization/topology_operations.py", "optimization/topology_preparation.py", "optimization/deployment_rules.py", "common/rf/link_budget_calculator.py"],
  [("interference", "optimization/topology_interference.py"), ("power control", "optimization/topology_operations.py: update_link_caps_with_sinr"), ("link budgets", "optimization/topology_preparation.py: add_link_capacities"), ("deployment rules", "optimization/deployment_rules.py")],
  MAP, "exhaustive over the stated networks; where power control has not settled after its ten iterations, its tenth state is compared")

P("C15", "Demand is placed where each enabled model puts it, on sites able to serve it",
  "For every set of sites and settings, CN demand puts one demand point per CN location with its number of subscribers, manual demand keeps the user's points, and uniform demand an even grid over the area; a point is connected to exactly the sites within the connection radius (or the CNs at it) and to every DN or POP at the same place or on the same known building as one of its CNs, each once. Grid points without sites are dropped, other models' points are removed, every point carries the configured demand, and a plan without demand is rejected.",
  ["inputs", "configurations"], "all sets of up to four sites of a 15-site catalogue (shared places, altitudes, devices, known and unknown buildings) x all sets of up to two manual points x models x radii; grids over all sets of up to three sites x spacings x four regions incl. the antimeridian",
  "tests use one layout; which sites share a demand point depends on the combination of places, altitudes, buildings and models",
  ["optimization/topology_demand.py", "common/topology_models/demand_site.py", "common/topology_models/topology.py", "common/geos.py"],
  [("demand placement", "optimization/topology_demand.py: add_demand_to_topology"), ("co-located sites", "common/topology_models/topology.py: get_colocated_sites")],
  MAP, "exhaustive over the stated catalogue (a stride of the larger sets in quick)")

P("C16", "Statuses follow reachability, stay consistent, and record the solution",
  "For every topology, the hops of a site are its shortest distance from an active POP over links and sites of the given statuses; candidate sites that no POP reaches, or only beyond the hop limit, become unreachable with their sectors and links, and nothing else changes. The status check accepts exactly the topologies in which every link, sector and site agree. Applying a solution proposes exactly the selected sites, sectors and links that a POP reaches over selected parts, resets the other candidates, keeps existing, unavailable and unreachable ones, and records the selected polarities and channels. The demands reported reachable, also with any one site or link left out, are those connected to a site that a POP reaches.",
  ["inputs", "histories"], "all networks of three sites x types x statuses x link statuses x hop limits; all networks of five sites for a set of status patterns; all solutions (sites x links x sectors) of a network of four sites x prior statuses; all status combinations of a link, its reverse, its sites and sectors",
  "tests mark one topology; the rules interact across sites, links, sectors, directions and statuses",
  ["optimization/topology_operations.py", "optimization/topology_optimization.py", "optimization/topology_preparation.py"],
  [("reachability", "optimization/topology_operations.py: hops_from_pops, mark_unreachable_components, get_reachable_demand_sites"), ("consistency", "optimization/topology_preparation.py: validate_topology_status"), ("applying a solution", "optimization/topology_optimization.py: update_topology_with_solution")],
  MAP, "exhaustive over the stated networks (a stride of the status patterns of five sites and of the solutions in quick)")

P("C17", "Resilience metrics and adversarial links follow from the active network",
  "For every plan, a failing backhaul link or POP/DN is charged with exactly the demand that only it connects to the active POPs; a demand has disjoint paths exactly when no single backhaul or wired link cuts it off; the routing methods use shortest paths by hops, by MCS cost, and by MCS cost inside the zone of the nearest POP; simulated availability is the share of time each demand is connected under the drawn failures, the same for the same seed. Adversarial links disrupt the plan, can all fail without cutting off demand in the candidate network, and no more harmful link is left out. None of this changes the analyzed graph.",
  ["inputs", "schedules", "histories"], "all networks of four sites (wireless, wired, candidate links), all link sets of five sites (six in thorough), statuses, demands on several sites; all failure schedules of a lattice on five networks incl. time limits; adversarial links over candidate links, zero capacities and co-located sites",
  "tests use three fixed graphs; failures and paths depend on the whole graph, simulation on the order of events",
  ["optimization/topology_networkx.py", "optimization/topology_availability.py", "optimization/topology_operations.py"],
  [("failures", "optimization/topology_networkx.py: single_edge_failures, single_site_failures"), ("adversarial links", "optimization/topology_operations.py: get_adversarial_links; optimization/topology_networkx.py: find_most_disruptive_links"), ("paths and routing", "optimization/topology_networkx.py: disjoint_paths, get_topology_routing_results"), ("availability", "optimization/topology_availability.py: compute_availability")],
  MAP, "exhaustive over the stated networks (a stride in quick); where several shortest paths tie any is accepted; the random draws are scripted through the seed argument")
P("C18", "The report states the plan: counts, costs, metrics, tables and files",
  "For every plan, the reported counts equal the active and total sites (co-located candidates of one type once), nodes, sectors and links (each pair once) of the topology; the capex charges every active site and every node with an active sector once, split into proposed and existing; the statistics are those of the given failures, availability, violations, links and flows; flows appear only on active links, within their capacity, balance at every site and serve every connected demand the reported minimum bandwidth; the link, sector and site tables, their CSV files and the YAML metrics show each element's status, flow, utilization, outages, channel, cost, hops and rule violations.",
  ["inputs", "histories"], "all status combinations of five site layouts over link, sector and channel patterns; all statuses of a four-site plan against four sets of failures; all wireless/wired link sets of four sites, six status vectors, all routing methods and three rule settings (strided)",
  "tests compare a few hand-made plans; a number is right only relative to the whole plan, and mistakes hide in statuses, co-location, wired links and partially active nodes",
  ["optimization/topology_report.py", "optimization/topology_component_counter.py", "optimization/topology_operations.py", "optimization/deployment_rules.py"],
  [("metrics", "optimization/topology_report.py: get_topology_metrics"), ("tables", "optimization/topology_report.py: build_links_df, build_sectors_df, build_sites_df"), ("counts", "optimization/topology_component_counter.py: count_topology_components"), ("cost", "optimization/topology_operations.py: compute_capex")],
  MAP, "active wireless links without sectors, nodes mixing existing and planned sectors, and networks without a POP that can send (rejected up front) are outside; the number of CNs with a backup DN is checked between the active and all links")

P("C19", "The minimum-cost plan is a working network and none cheaper reaches the coverage",
  "For every candidate network, the minimum-cost step returns the cheapest set of sites (with their nodes) that can serve the asked share of demand, and no plan only if none can, at the highest reachable coverage of 100%, 90% ... 50%. In each plan at most one of co-located sites is selected, given and unavailable sites keep their role, linked distribution sites differ in polarity, active links and sectors follow from the sites, flow stays within link capacity, sector airtime and POP capacity, balances at every site, has no loops and explains each demand's shortage; sites without use are dropped; the cost is that of the selected sites and nodes.",
  ["inputs", "configurations"], "all link sets of networks of 4 and 5 sites, all site statuses, all link statuses over wireless and wired links, co-located sites with upgrades and devices, lattices of capacities, demands, copies, oversubscription, POP capacity, coverages; every set of sites x polarities enumerated for each",
  "tests solve a few hand-made networks; optimality and feasibility quantify over all sets of sites and depend on how statuses, polarities, airtime and co-location combine",
  ["optimization/ilp_models/cost_optimization.py", "optimization/ilp_models/site_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/ilp_models/optimization_setup.py", "optimization/topology_optimization.py"],
  [("model", "optimization/ilp_models/cost_optimization.py: MinCostNetwork; optimization/ilp_models/site_optimization.py"), ("flow and airtime", "optimization/ilp_models/network_optimization.py"), ("step", "optimization/topology_optimization.py: _run_min_cost_step")],
  "bounded exhaustive enumeration of instances and, for each, of all plans, against the planner's decisions",
  "exhaustive over the stated lattices (a stride in quick); FICO Xpress is absent, its API is stood in for by shim/xpress.py over HiGHS, which solves every model with and without presolve; the flow of an enumerated plan is a linear program")

P("C20", "The coverage step serves the most demand within budget, avoiding attacked links",
  "For every candidate network, budget and set of adversarial links, the coverage step serves as much demand (or common bandwidth) as any set of sites within the budget can without those links, in a plan that keeps all rules of the minimum-cost plan, and returns none only if the given sites break the budget. Run after the minimum-cost step it keeps that plan's sites (unless a co-located site replaces one) and the budget of the reported cost, sends no flow over adversarial links, and leaves the topology unchanged if it finds nothing.",
  ["inputs", "histories"], "the networks of C19 x budgets around the cheapest plan's cost x sets of blocked links x common bandwidth; the sequence minimum-cost step, coverage step over budgets and adversarial settings; every set of sites x polarities enumerated for each",
  "tests look at a few networks; the best plan depends on all sets of sites under budget and blocked links, and on what the earlier step left active",
  ["optimization/ilp_models/coverage_optimization.py", "optimization/ilp_models/site_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/topology_optimization.py"],
  [("model", "optimization/ilp_models/coverage_optimization.py: MaxCoverageNetwork"), ("step", "optimization/topology_optimization.py: _run_max_coverage_step")],
  "bounded exhaustive enumeration of instances and, for each, of all plans, against the planner's decisions",
  "exhaustive over the stated lattices (a stride in quick); Xpress stood in for as in C19; nodes added to existing sites, free for the optimizer but charged by the reported capex, are left out of the budget comparison")

P("C21", "Routed flow is loop-free and supports the largest common bandwidth",
  "For every topology, the flow of the report uses only active sites and links that are not redundant, keeps link capacity, sector airtime and POP capacity, balances at every site, and gives every demand that the active network reaches the same amount, the largest that any routing can give to all of them; unreachable demands get nothing. Removing loops from any flow leaves a flow without loops on the same links, never adds flow, keeps the net flow of every site, and leaves flows without loops alone.",
  ["inputs"], "all assignments of {0, 1} to the twelve and of {0, 1, 2} to eight (twelve in thorough) links of four sites, fractional and tiny flows, five-site networks; max flow on all link sets of four sites with statuses, redundant links, wired links, shared sectors, capacities, POPs that serve demand",
  "tests solve three networks; loops interlock, and the common bandwidth depends on every capacity and sector",
  ["optimization/ilp_models/flow_optimization.py", "optimization/ilp_models/network_optimization.py"],
  [("maximum common bandwidth", "optimization/ilp_models/flow_optimization.py: MaxFlowNetwork"), ("loops", "optimization/ilp_models/network_optimization.py: prune_loops")],
  MAP, "exhaustive over the stated spaces (a stride in quick); the best bandwidth is a linear program written independently; Xpress stood in for as in C19")

P("C22", "The redundancy step adds the cheapest DNs giving the most disjoint paths",
  "For every base network, the redundancy model keeps the active sites, adds no POPs, keeps co-location and polarity rules, and reaches the smallest total number of missing disjoint paths of any choice of extra DNs and polarities, at the lowest cost for those paths. Every DN with enough paths stays connected to a POP after any failure its level stands for: one link (low), one DN or POP (medium), two DNs, or a POP and a DN (high). The candidate links kept by the heuristic preserve the disjoint paths from every active POP and between nearby DNs; the step never loses paths and changes nothing without a solution.",
  ["inputs", "crash_points"], "all sets of extra links of seven base networks of 5 and 6 sites (co-located, wired, zero capacity, devices), all statuses of five sites, all path limits; every choice of sites x polarities and every failure set enumerated; the sequence minimum-cost step, redundancy step at every level",
  "tests look at one grid; resilience quantifies over all failures and optimality over all choices of sites",
  ["optimization/ilp_models/redundancy_optimization.py", "optimization/topology_optimization.py"],
  [("model", "optimization/ilp_models/redundancy_optimization.py: RedundantNetwork"), ("candidate links", "optimization/ilp_models/redundancy_optimization.py: compute_candidate_edges_for_redundancy"), ("step", "optimization/topology_optimization.py: _run_redundancy_step")],
  "bounded exhaustive enumeration of instances and, for each, of all plans and all failures, against the planner's decisions",
  "exhaustive over the stated lattices (a stride in quick); the step, which works on the heuristic's links, is only bounded by the base network and the optimum; Xpress stood in for as in C19")

P("C23", "The interference step's links and channels serve the most demand under SINR",
  "For every set of selected sites, the interference step picks links, polarities and channels such that no sector exceeds its link limits, no two links closer than the angle limits share a channel, a CN has one parent, linked sites have opposite polarities and the same channel, existing links stay and unavailable ones do not appear; every link's flow fits its airtime and the rate that its SINR allows under that plan's own airtimes. No such plan serves more demand (or common bandwidth) by over 1% of the total, none that serves as much has better links, and none is returned only if nothing can be served. The step transfers exactly this plan to the topology.",
  ["inputs"], "all subsets of the links of five networks of 4-5 sites x statuses, link limits, angle pairs, channels, capacities, SNR, wired links, co-located upgrades, common bandwidth; six networks whose links disturb each other x sectors, interference levels, channels; every set of links x polarity x channels enumerated for each, every choice of rates where links are disturbed",
  "tests look at a few networks; each choice of links, polarity and channel changes the interference of all others",
  ["optimization/ilp_models/interference_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/topology_optimization.py", "optimization/deployment_rules.py"],
  [("model", "optimization/ilp_models/interference_optimization.py: MinInterferenceNetwork"), ("step", "optimization/topology_optimization.py: _run_interference_step")],
  "bounded exhaustive enumeration of instances and, for each, of all plans, against the planner's decisions",
  "exhaustive over the stated lattices (a stride in quick); flow and airtime of an enumerated plan are a linear program; Xpress stood in for as in C19; angle pairs and interfering power come from the planner's functions that C14 and C16 check")

P("C24", "Extra POPs are proposed where they serve the most demand, as copies of DNs",
  "For every candidate network, number of extra POPs and POP capacity, the extra POPs are at most that many, each at the place of a different candidate DN where there is no POP or active DN; together with the given POPs they serve, directly or over one link to a CN, as much demand as any such choice. Each is a candidate copy of its DN: same place, device, building and sectors, a link for every usable wireless or wired link of the DN to or from a site other than a POP with the same sectors, capacity and link budget of its own, and the same demands. Everything else stays as it was, and the plan made next uses the new POPs as it would any candidate POP there.",
  ["inputs"], "all subsets of the links of seven networks of 5-6 sites (with and without POP, co-located POP, DN or CN) x numbers of extra POPs x statuses, capacities, wired and unavailable links, POP capacities, demands; every choice of POPs enumerated, then the minimum-cost plan of the extended network against an independent enumeration",
  "tests propose POPs in one network; which DNs are best depends on every link, capacity and co-located site",
  ["optimization/ilp_models/pop_proposal_optimization.py", "optimization/topology_optimization.py"],
  [("model", "optimization/ilp_models/pop_proposal_optimization.py: POPProposalNetwork"), ("copies", "optimization/ilp_models/pop_proposal_optimization.py: add_duplicate_pop_to_dn_site"), ("step", "optimization/topology_optimization.py: _run_propose_extra_pops_step")],
  "bounded exhaustive enumeration of instances and, for each, of all plans, against the planner's decisions",
  "exhaustive over the stated lattices (a stride in quick); places that hold an unavailable POP are not proposed (taken as given); Xpress stood in for as in C19")

P("C25", "Planning end to end gives a consistent, connected network in any input order",
  "For every candidate network and settings, planning keeps all input sites and links, changes nothing given (existing or unavailable), and leaves a network in which every new active site is connected to an active POP by active links, co-located places hold one active site, each active wireless link has two active sectors of its sites, on the same channel, within scan range, with opposite polarities between distribution sites and one parent per client site, sectors keep their link limits, all sectors of a node are active together, and flow fits capacity; or it stops with a planner error. Redundancy and extra budget only add sites to the plan made without them, plan and error do not depend on the order in which sites and links are given, and the topology file written is the plan.",
  ["inputs", "configurations"], "rings with two chains of DNs x types, statuses, wired and unavailable links x redundancy and budget settings; all subsets of the links of four networks of 5-7 sites x statuses, co-location, wired and unavailable links, devices with differing nodes x fourteen settings (redundancy levels, budgets, channels, extra POPs, common bandwidth, hops, sector and angle limits), each planned with the input in two orders",
  "tests plan two networks; each step relies on what all earlier steps left in sectors, statuses, polarities and channels",
  ["optimization/topology_optimization.py", "optimization/topology_operations.py", "optimization/topology_preparation.py", "optimization/topology_report.py", "common/data_io/topology_serializer.py"],
  [("pipeline", "optimization/topology_optimization.py: optimize_topology, optimize_and_report_topology"), ("statuses and sectors", "optimization/topology_operations.py: hide_unavailable_input, readjust_sectors_post_opt, mark_unreachable_components"), ("preparation", "optimization/topology_preparation.py: prepare_topology_for_optimization")],
  MAP, "exhaustive over link sets, other dimensions strided; plan optimality is decided step by step in C19-C24; Xpress stood in for as in C19")

P("C26", "A solver that runs out of time or finds nothing never corrupts a plan",
  "Whenever solves of a planning run end early, without a solution or with any feasible but bad one, planning ends with a consistent, connected network (as in C25) or with an error, never with anything else. A mandatory step without a solution stops planning with an error that tells a timeout from infeasibility; an optional step without one leaves the plan that planning without that step gives, with a warning that tells the two apart; without a flow the report is still written and shows none. A solve that ends at its limit with the best solution gives the plan of a solve that ended normally.",
  ["fault_sequences", "inputs"], "for networks and settings of C25: every single solve x six ways to end (three timeouts without solution, infeasible, timeout with the best and with the worst solution), every step with all its solves ending so, every pair of solves in thorough",
  "tests run every solver to optimality; which decisions survive a failed or poor solve depends on when it happens and on what later steps assume",
  ["optimization/topology_optimization.py", "optimization/ilp_models/network_optimization.py", "optimization/ilp_models/site_optimization.py", "optimization/ilp_models/redundancy_optimization.py", "optimization/ilp_models/interference_optimization.py", "optimization/topology_report.py"],
  [("steps", "optimization/topology_optimization.py: _run_*_step"), ("timeouts", "optimization/ilp_models/network_optimization.py: did_problem_timeout, solve_connected_demand")],
  "exhaustive fault injection: every solver call of a planning run x every way it can end",
  "the worst solution is that of the model with its objective reversed; bad solutions of the extra POPs and of which demand can be connected may make later steps infeasible (errors accepted); Xpress stood in for as in C19")

P("C27", "Planning from a configuration file gives the plan and files of its settings",
  "For every configuration file (YAML or JSON, any spelling of its keys), planning from it gives the same plan, errors and output files, byte for byte, as planning with those settings directly, from a candidate network in a KML or zipped CSV file or from maps and site files; planning in two runs over the written candidate network gives the plan of one run. Output goes below the configured directory, created if missing, debug files exist exactly in debug mode and hold the plan, and do not change it. Logging goes exactly where and at the level the file says, whatever runs came before in the process.",
  ["configurations", "histories", "inputs"], "settings x formats x spellings x debug x log settings x output directories x networks of C25 (a stride in quick); maps with walls, houses, elevation files, exclusion zones x settings, planned in one run, in two runs and directly; all sequences of up to three (four) runs over six system settings",
  "tests load single settings; that a setting reaches the step that needs it, alone and after other runs, is a matter of combinations",
  ["optimization/topology_optimization.py", "los/core.py", "common/utils.py", "common/configuration/utils.py", "common/data_io/topology_serializer.py", "optimization/topology_report.py"],
  [("entry points", "optimization/topology_optimization.py: optimize_and_report_topology_with_config_file; los/core.py: generate_candidate_topology_with_config_file"), ("system settings", "common/utils.py: set_system_control_with_config_file, set_root_logger"), ("debug files", "common/data_io/topology_serializer.py: dump_topology_to_kml; optimization/ilp_models/network_optimization.py: dump_problem_file_for_debug_mode")],
  MAP, "a stride of the product in quick; wired links cannot be given in files; maps keep the bounds of C12; Xpress stood in for as in C19")
