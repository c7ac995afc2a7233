harness(core_map lanelet2_core)
harness(core_prim lanelet2_core)
harness(conc lanelet2_core lanelet2_traffic_rules lanelet2_routing lanelet2_matching)
harness(geom_line lanelet2_core)
harness(geom_poly lanelet2_core)
harness(offset lanelet2_core)
harness(proj lanelet2_projection)
harness(io lanelet2_io lanelet2_projection pugixml::pugixml)
harness(rules lanelet2_traffic_rules)
harness(routing lanelet2_routing lanelet2_traffic_rules)
harness(route lanelet2_routing lanelet2_traffic_rules)
harness(rgraph lanelet2_routing lanelet2_traffic_rules)
harness(matching lanelet2_matching lanelet2_traffic_rules)
harness(validation lanelet2_validation lanelet2_io lanelet2_projection lanelet2_routing lanelet2_traffic_rules)
harness(boxes lanelet2_core)
harness(handles lanelet2_routing)
harness(osmfile lanelet2_io pugixml::pugixml)
