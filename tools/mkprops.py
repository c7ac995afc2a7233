#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,mech):
    files=[]
    for _,w in mech:
        f=w.split(":")[0]
        if f not in files: files.append(f)
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}})
C="lanelet2_core/src/"; CI="lanelet2_core/include/lanelet2_core/"
IO="lanelet2_io/src/"; PR="lanelet2_projection/src/"; TR="lanelet2_traffic_rules/src/"; RO="lanelet2_routing/src/"; ROI="lanelet2_routing/include/lanelet2_routing/"
MA="lanelet2_matching/src/"; MAI="lanelet2_matching/include/lanelet2_matching/"; VA="lanelet2_validation/src/"

p("C01","A map is closed under reachability and holds each element exactly once",
  "After any sequence of additions and bulk constructions, a map contains every primitive reachable from what was added (points, bounds, hand-set centerlines, regulatory elements and everything those refer to, also through cycles) exactly once, found under its id and being the very object that was added, and nothing else. Elements added without an id get a fresh valid one and adding an element again changes nothing. A submap contains exactly the elements that were put into it, keeps the lanelets and areas its regulatory elements refer to alive, and converting it into a map yields the same closure.",
  ["histories","inputs"],"all orders of add / bulk-create / submap operations over all object graphs (shared points and bounds, inverted views, cyclic regulatory elements, missing ids)",
  "tests add a few fixed objects in a fixed order",
  [("LaneletMap::add",C+"LaneletMap.cpp"),("utils::createMap/createSubmap",C+"LaneletMap.cpp"),("LaneletSubmap::laneletMap",C+"LaneletMap.cpp")])
p("C02","Freshly issued ids are unique and never collide with ids already in use",
  "An id that the library hands out (on request, for elements added without an id, or by a layer) is valid, is handed out only once in the process even when many threads ask at the same time, and differs from every id previously registered and every id of an element that was added to or loaded into a map before. Registering ids never makes an already issued id come back.",
  ["schedules","histories"],"all interleavings of id requests, registrations and map additions from several threads; ids anywhere in the valid range",
  "tests request two ids in one thread",
  [("utils::getId/registerId",C+"LaneletMap.cpp"),("LaneletMap::add",C+"LaneletMap.cpp"),("registerIds on load",IO+"OsmHandlerLoad.cpp")])
p("C03","Spatial map queries equal a brute-force scan of the layer",
  "For every layer of any map, a box search returns exactly the elements whose bounding box intersects the box; the n-nearest query and the until-style searches visit elements in order of non-decreasing bounding-box distance and miss none. findNearest returns exactly the n elements with smallest true distance in order, and findWithin2d/findWithin3d return exactly the elements within the given distance of a point, box, line or polygon, sorted, with their true distance.",
  ["inputs","histories"],"all maps (incrementally filled or bulk built), all query points, boxes, geometries, counts and distances, including queries on boundaries and into empty layers",
  "tests query small maps with hand-picked points",
  [("PrimitiveLayer::search/nearest/nearestUntil",C+"LaneletMap.cpp"),("geometry::findNearest",C+"LaneletMap.cpp"),("findWithin2d/3d",CI+"geometry/impl/LaneletMap.h")])
p("C04","Reverse lookup of usages is complete and sound",
  "For every element owned by another (point by line string or polygon, bound by lanelet or area, regulatory element by lanelet or area, element by regulatory element) the usage lookup on a map or submap that contains the owner returns every owner and returns nothing that does not own it. The point-to-lanelet, point-to-area and lookup-by-id variants agree with a full scan.",
  ["histories","inputs"],"all maps built by any mixture of incremental additions, bulk construction and loading",
  "tests look up two or three elements",
  [("PrimitiveLayer::findUsages",C+"LaneletMap.cpp"),("utils::findUsagesInLanelets",C+"LaneletMap.cpp"),("UsageLookup",C+"LaneletMap.cpp")])
p("C05","Line string and polygon views behave like one shared vector of points",
  "All copies, const, 2d/3d, hybrid and inverted views of a line string or polygon observe the same points: inverting reverses the order and inverting twice gives the original, and insert, erase, push, pop, resize, assign and clear through any view have exactly the effect of the same operation on a plain vector seen through that view. Segments, front/back, iterators in both directions and compound lines/polygons (the parts concatenated, shared joints once) agree with that vector.",
  ["histories","inputs"],"all operation sequences through all views, including inverted ones and lengths 0, 1 and 2",
  "tests exercise a few operations on 3-point lines",
  [("LineStringImpl",CI+"primitives/LineString.h"),("CompoundLineStringData",CI+"primitives/CompoundLineString.h"),("ReverseAndForwardIterator",CI+"utility/ReverseAndForwardIterator.h")])
p("C06","Lanelet orientation, sharing and derived centerline are always consistent",
  "Inverting a lanelet swaps and reverses its bounds and its centerline, inverting twice gives the same lanelet, and every copy sees changes made through any other. A lanelet without hand-set centerline always reports one derived from its current bounds, starting and ending midway between the bounds' ends and, for a well-formed lanelet, staying inside it, also right after a bound was replaced or the cache was reset; a hand-set centerline is returned unchanged until reset.",
  ["histories","inputs"],"all sequences of bound replacement, centerline set/reset, inversion and attribute changes over all lanelet shapes",
  "tests check one square lanelet",
  [("LaneletData::centerline",C+"Lanelet.cpp"),("calculateCenterline",C+"Lanelet.cpp"),("ConstLanelet::invert",CI+"primitives/Lanelet.h")])
p("C07","Attributes convert losslessly and enum and string access always agree",
  "A value stored as an attribute (text, integer, id, bool, double, velocity) is read back as the same value, text that is not of the requested kind yields no value rather than a wrong one, and quantities with units are scaled to the right SI value. An attribute map gives the same result through predefined-name access as through string access after any sequence of inserts, assignments, erasures, copies, moves and clears.",
  ["inputs","histories"],"all attribute texts and all operation sequences on attribute maps",
  "tests use a few literal values",
  [("Attribute::as*",C+"Attribute.cpp"),("HybridMap",CI+"utility/HybridMap.h")])
p("C08","Regulatory elements keep parameters, typed accessors and liveness consistent",
  "For any sequence of add/remove/set operations on traffic lights, right-of-way, all-way-stop, speed-limit and traffic-sign regulatory elements, the typed accessors, the role-based parameter lookup, the lookup by id and the visitor all report the same elements in the same roles, and the role of a lanelet (yield, right of way, none) follows from the lists it is in. References from a regulatory element to a lanelet or area do not keep it alive, never dangle once it is gone, and the factory re-creates every registered rule type equal to the original and throws for unknown types.",
  ["histories"],"all operation sequences and destruction orders",
  "tests check a few fixed sequences",
  [("RegulatoryElement",C+"RegulatoryElement.cpp"),("BasicRegulatoryElements",C+"BasicRegulatoryElements.cpp"),("RegulatoryElementFactory",C+"RegulatoryElement.cpp")])
p("C09","Concurrent readers of one map and graph never race",
  "Any number of threads may call const queries (geometry, derived centerlines, attribute conversion, spatial search, usage lookup, traffic rule evaluation, routing queries) on the same map, primitives, traffic rules and routing graph at once; there is no data race and every thread gets the same results as a single thread would.",
  ["schedules"],"all interleavings of const operations from several threads, including the first (cache filling) access",
  "no test uses threads for queries",
  [("Attribute cache",C+"Attribute.cpp"),("LaneletData::centerline cache",C+"Lanelet.cpp"),("PointData::point2d cache",CI+"primitives/Point.h"),("RoutingGraph queries",RO+"RoutingGraph.cpp")])

p("C10","Handles and sequences behave exactly like what they refer to",
  "A handle that stands for a lanelet or an area, for a line string or a polygon, or for a rule parameter gives exactly the id, attributes, kind, polygon and regulatory elements of the element it holds, is equal to another handle exactly if both hold the same element in the same direction, and keeps this through assignment, copies, conversions and hashing. Weak references return their element while it exists and are expired afterwards. Sequences, compounds and paths contain the lines and points of their parts in order, with points shared by successive parts once, in both directions.",
  ["inputs","histories"],"all elements, directions, combinations and lifetimes",
  "tests look at single handles and sequences",
  [("ConstLaneletOrArea",CI+"primitives/LaneletOrArea.h"),("LineStringOrPolygon",CI+"primitives/LineStringOrPolygon.h"),("LaneletSequence",C+"LaneletSequence.cpp"),("CompoundLineString",CI+"primitives/CompoundLineString.h"),("LaneletPath",ROI+"LaneletPath.h")])
p("G01","Line string geometry agrees with elementary computation",
  "For every line string with distinct consecutive points: length, distance, projection, closest segment, signed distance and arc coordinates equal the result of checking every segment one by one, converting a point to arc coordinates and back returns the point wherever the projection is unambiguous and falls inside a segment, and points interpolated at a distance or ratio lie on the line at exactly that running length (clamped to its ends, measured from the far end when negative). Inverting the line mirrors signed values and keeps unsigned ones; results do not depend on the number of points (indexed and scanned lookups agree).",
  ["inputs"],"all line strings (any size, reversed, repeated points, collinear, self-approaching) in 2d and 3d and all query points and distances",
  "tests use one L-shaped line",
  [("signedDistance/toArcCoordinates/project",CI+"geometry/impl/LineString.h"),("interpolatedPointAtDistance",CI+"geometry/impl/LineString.h"),("findClosestSegment",C+"LineStringGeometry.cpp")])
p("G02","Lanelet, area and polygon predicates agree with elementary geometry",
  "Containment, distance, overlap, intersection, bounding boxes, lengths and width relations of lanelets, areas and polygons equal what independent point-in-polygon, segment-intersection and clipping computations on their outlines give, are symmetric where the relation is, and do not change when the lanelets are inverted; a lanelet sequence behaves like the concatenation of its lanelets. Elements that share a border or meet at their ends are neighbours and not overlapping. Topological relations (follows, left of, right of, adjacent area, common border) hold exactly when the corresponding end points or border lines are shared with the right orientation.",
  ["inputs"],"all pairs of lanelets/areas/polygons, convex and not, with holes, disjoint, touching, contained and crossing, at any height offset",
  "tests use one or two squares",
  [("geometry::inside/overlaps2d/intersects2d",CI+"geometry/impl/Lanelet.h"),("leftOf/rightOf/follows",CI+"geometry/impl/Lanelet.h"),("Area geometry",CI+"geometry/impl/Area.h"),("Polygon geometry",CI+"geometry/impl/Polygon.h")])
p("G03","Polygon decompositions tile the polygon",
  "For every simple polygon, the triangulation and the convex partition use only the polygon's own corners, consist of non-overlapping pieces (convex ones for the convex partition, triangles for the triangulation), and together cover exactly the polygon's area.",
  ["inputs"],"all simple polygons, with collinear corners, any orientation accepted by the library and any size",
  "tests check a handful of polygons",
  [("convexPartition/triangulate",C+"PolygonTriangulationGeometry.cpp")])

p("G05","Bounding boxes behave like the point sets they stand for",
  "For all boxes, containment, intersection, clamping, merging, extension, translation, distances, corners and sizes agree with the sets of points the boxes cover (empty boxes included), and the box of any point, line string, compound, polygon, lanelet or area is spanned exactly by the extreme coordinates of its points in two and three dimensions; the box of a regulatory element covers exactly its parameters that still exist.",
  ["inputs"],"all boxes, all primitives in all their views and all regulatory elements with any parameters",
  "tests check single boxes",
  [("BoundingBox2d",CI+"primitives/BoundingBox.h"),("boundingBox",CI+"geometry/BoundingBox.h"),("regulatory elements",C+"RegulatoryElementGeometry.cpp")])
p("G04","Offset lines keep the promised distance and never cross themselves",
  "For every line with at least two points and every distance, the offset line lies on the requested side, everywhere between one and sqrt(2) times the distance away from the line, and does not cross itself; where the line leaves room for it, it is not refused and follows every segment of the line in order, starting and ending beside its ends. Only lines that cannot be followed are refused, with the documented errors.",
  ["inputs"],"all lines of any shape, self-crossing ones included, distances to both sides and all line views",
  "tests offset a handful of lines to one side",
  [("offset",CI+"geometry/impl/LineString.h")])

p("I01","A map written to OSM and read back is the same map",
  "Writing any valid map to an OSM file and loading it with the same projector reports no errors and gives a map with the same ids in every layer, the same geometry up to the coordinate precision of the format, the same attributes (besides the type and area tags the format adds), line memberships, lanelet and ring orientations, hand-set centerlines running along their lanelet, area rings (up to rotation) and regulatory element roles and references (by id). Loading never yields dangling references, and a second write of the loaded map produces an equivalent file.",
  ["inputs"],"all maps with any ids, any attribute text, any combination of primitives, inverted bounds and cyclic regulatory elements, any projector",
  "tests round-trip one primitive of each kind",
  [("OsmWriter",IO+"OsmHandlerWrite.cpp"),("OsmParser",IO+"OsmHandlerLoad.cpp"),("osm::read/write",IO+"OsmFile.cpp")])
p("I02","A map written in binary form and read back is identical",
  "Writing any map to the binary format and loading it gives a map equal to the original in every layer: ids, coordinates bit for bit, attributes, element membership and order, inversion, hand-set centerlines, and regulatory elements of the same registered type with the same parameters, with all sharing between elements preserved. Ids issued after loading do not collide with loaded ones.",
  ["inputs"],"all maps including cyclic regulatory elements, empty layers and special float values",
  "tests round-trip one primitive of each kind",
  [("BinHandler",IO+"BinHandler.cpp"),("Serialize","lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h")])
p("I03","Malformed map files never crash the loader and are reported",
  "Loading any OSM file, however truncated, corrupted or inconsistent, and any truncated or foreign binary file, either returns a map together with a description of every part it had to drop or throws one of the library's documented exceptions; it never crashes, hangs, reads out of bounds or silently returns a map that lacks referenced elements. What the loader does return is a well-formed map whose intact parts are loaded.",
  ["inputs"],"all OSM XML byte strings and element graphs (missing and duplicate ids, dangling references, wrong roles, cyclic relations, broken numbers)",
  "tests feed two or three broken files",
  [("osm::read",IO+"OsmFile.cpp"),("OsmParser::parse",IO+"OsmHandlerLoad.cpp"),("lanelet::load",IO+"Io.cpp")])
p("I04","Writing failures are reported and never look like success",
  "When a map cannot be written completely to the requested file (missing directory, no permission, full device, unsupported extension or handler) the write call throws a library exception, and when it returns normally the file contains the complete map. Elements that could not be written are listed in the error output if one was requested, or raised as an exception.",
  ["fault_sequences","inputs"],"all points at which the file system can fail, all invalid targets, all maps with unwritable parts",
  "tests do not inject write faults",
  [("BinWriter::write",IO+"BinHandler.cpp"),("OsmWriter::write",IO+"OsmHandlerWrite.cpp"),("lanelet::write",IO+"Io.cpp")])
p("I05","The OSM document layer reads and writes exactly what a document says",
  "Reading any OSM document yields exactly its nodes, ways and relations with their tags, positions and members in order (relations may refer forward, to each other and to themselves); deleted elements are left out, and elements without a valid or with a repeated id and members that do not exist are dropped with one error naming the element, leaving all others as they are. Writing the result and reading it again gives an equal file without errors, and files with different elements or members do not compare equal.",
  ["inputs"],"all documents with any reference structure, order and faults",
  "tests read one well-formed document",
  [("osm::read/write",IO+"OsmFile.cpp")])
p("P01","Projectors are invertible and locally metric",
  "For every origin and every point in a projector's documented range, forward followed by reverse (and reverse followed by forward) returns the point to sub-millimetre accuracy, the origin maps to (0,0) for offset projectors, and height is carried along. Near the origin, projected distances and directions agree with those on the ellipsoid (local cartesian, UTM) or sphere (spherical Mercator), up to the scale 1/cos(latitude) for the unscaled Mercator projection, and points outside the allowed range raise the documented errors instead of returning wrong coordinates.",
  ["inputs"],"all origins (both hemispheres, near zone borders) and points, all configurations",
  "tests check a few points near one origin",
  [("UtmProjector",PR+"UTM.cpp"),("LocalCartesianProjector",PR+"LocalCartesian.cpp"),("GeocentricProjector",PR+"Geocentric.cpp"),("MercatorProjector","lanelet2_projection/include/lanelet2_projection/Mercator.h"),("SphericalMercatorProjector","lanelet2_io/include/lanelet2_io/Projection.h")])

p("T01","Who may pass what follows the tagging specification",
  "For every lanelet and area, whether a participant may pass, in which direction, and whether the road is one-way is exactly what the tagging rules prescribe: rules given by regulatory elements win, then an explicit participant or one-way override for the participant or a group it belongs to (any override makes the element forbidden resp. one-way for participants it does not name), otherwise the default for its type applies: untagged elements are for vehicles only, unknown types for nobody. In the German rules vehicles never use areas. Passing from one lanelet or area to the next is allowed only when both are passable in the travelled direction, they actually connect, and the border between them is passable where one is needed.",
  ["inputs","configurations"],"all combinations of subtype, location, override tags, participant (with sub-types), direction and neighbouring geometry",
  "tests cover a small sample of tag combinations",
  [("GenericTrafficRules::canPass",TR+"GenericTrafficRules.cpp"),("isOneWay",TR+"GenericTrafficRules.cpp")])
p("T02","Lane changes are allowed exactly where the dividing line permits",
  "A change to a neighbouring lanelet is allowed if and only if both are passable for the participant in the direction asked for, they share the dividing border with matching orientation, and the marking (or its explicit lane-change tags, which take precedence) permits crossing from that side for that participant. Reversing the direction in which the border line is stored does not change the answer.",
  ["inputs","configurations"],"all line types, subtypes, lane_change tags, orientations, participants and sides",
  "tests cover a few markings",
  [("GenericTrafficRules::canChangeLane",TR+"GenericTrafficRules.cpp"),("laneChangeType",TR+"GenericTrafficRules.cpp")])
p("T03","The reported speed limit is the most specific one that applies",
  "The speed limit for a participant on a lanelet or area is the value of a speed limit regulatory element if there is one and the rules consider it (German rules: for vehicles, and then mandatory), else of the speed limit tag for the participant or a group it belongs to, else of the general speed limit tag (0 if only others are named), else the country default for its location and type; units written in the tag are respected, the mandatory flag follows the same order of tags, and signs that are no speed limits raise an InterpretationError.",
  ["inputs","configurations"],"all combinations of tags, units, regulatory elements, traffic signs, participants, subtypes and locations",
  "tests cover a few tags",
  [("GenericTrafficRules::speedLimit",TR+"GenericTrafficRules.cpp"),("GermanVehicle/GermanPedestrian/GermanBicycle",TR+"GermanTrafficRules.cpp")])

p("R01","The routing graph contains exactly the relations the rules and geometry imply",
  "For every map and participant the routing graph contains exactly the passable lanelets (in each direction they may be driven) and areas, and reports between them exactly the following/previous, left/right (lane change allowed), adjacent (not allowed) and conflicting relations that geometry and traffic rules imply. Following and previous are inverse to each other, as are left and right, conflicting is symmetric, and the neighbour lists of a lanelet enumerate exactly the chain of such neighbours.",
  ["inputs","configurations"],"all maps, participants, routing cost sets and configuration values",
  "tests use one fixed map",
  [("RoutingGraphBuilder",RO+"RoutingGraphBuilder.cpp"),("RoutingGraph::following/left/right/besides/conflicting",RO+"RoutingGraph.cpp")])
p("R02","Shortest paths are valid, optimal and complete",
  "For every graph, start, destination, via list and cost module, a returned shortest path starts and ends where asked, visits the via points in order, uses only allowed steps, and no other allowed path is cheaper; nothing is returned if and only if no path exists. This holds with and without lane changes and including areas, for distance, travel-time and user-defined non-negative costs.",
  ["inputs","configurations"],"all maps, all start/destination/via choices, all cost modules and lane change settings",
  "tests compare a few known paths",
  [("RoutingGraph::shortestPath*",RO+"RoutingGraph.cpp"),("DijkstraSearch",ROI+"internal/ShortestPath.h"),("RoutingCost",RO+"RoutingCost.cpp")])
p("R03","Reachability and path enumeration are exact within the given limits",
  "The reachable set is exactly the set of lanelets/areas whose cheapest cost from the start does not exceed the limit. Enumerated possible paths (to and from a lanelet) are cheapest paths without repetition that end exactly where the cost or element limit is first met, together cover every element that such a search reaches, and shorter dead-end paths appear only when asked for. The for-each visitors see every reachable element once, in non-decreasing cost order, with its true cost and predecessor.",
  ["inputs","configurations"],"all maps, start elements, limits, directions and lane change settings",
  "tests check counts on one map",
  [("RoutingGraph::reachableSet/possiblePaths",RO+"RoutingGraph.cpp"),("forEachSuccessor/Predecessor",RO+"RoutingGraph.cpp"),("DijkstraStyleSearch",ROI+"internal/ShortestPath.h")])
p("R04","A route is a consistent corridor around its shortest path",
  "A route contains its shortest path and only lanelets from which the destination is still reachable inside the route by allowed steps and that are reachable from its start; lanes partition its lanelets so that lanelets of a lane follow each other without branching, on a road without forks or crossings it contains exactly the lanelets beside the path that lead from it and back to it, and relations inside the route agree with the routing graph. Remaining path and remaining lane queries return the suffix starting at the given lanelet (nothing when it is not part of it), and the route's own validity check reports no errors.",
  ["inputs"],"all maps and all start/destination/via choices for which a route exists",
  "tests check lanelet counts on one map",
  [("RouteBuilder",RO+"RouteBuilder.cpp"),("Route",RO+"Route.cpp"),("LaneletPath",RO+"LaneletPath.cpp")])
p("R05","Conflicts across graphs and queries on foreign elements are exact and safe",
  "A container of routing graphs for several participants reports, for any lanelet, area or route, exactly the elements of each graph's passable map that overlap it (taking participant height into account), except itself. Queries with elements that are not part of a graph, with invalid cost ids or limits return nothing or throw the documented error and never crash.",
  ["inputs","configurations"],"all maps, participant combinations, heights and query elements, including foreign ones",
  "tests check two participants on one map",
  [("RoutingGraphContainer",ROI+"RoutingGraphContainer.h"),("RoutingGraph",RO+"RoutingGraph.cpp")])
p("R06","Exports and the validity check describe exactly the routing graph",
  "For every routing graph, the debug lanelet map contains exactly one point per element and one line per related pair with all their relations and costs, and the GraphML and Graphviz exports contain exactly the elements and, for the selected relation types, exactly the relations of the graph with the costs of the selected cost module; wrong file names, cost ids and unwritable targets are reported by the documented errors. The validity check reports an error exactly if the left/right neighbours of some lanelet are ambiguous or not mutual.",
  ["inputs","configurations"],"all maps, participants, cost modules and relation filters",
  "tests only check that exporting does not fail, on one map",
  [("getDebugLaneletMap, export, checkValidity",RO+"RoutingGraph.cpp"),("RoutingGraphVisualization",ROI+"internal/RoutingGraphVisualization.h")])
p("R07","The enclosing polygon of a path covers exactly the path",
  "For every path of consecutive lanelets and areas (with or without lane changes), the enclosing polygon is a simple outline that covers exactly the union of the polygons of the path's elements and uses only their border points.",
  ["inputs"],"all paths through all networks of lanelets and areas, including inverted lanelets, lane changes and areas with several outline parts",
  "tests check a few paths on one map",
  [("getEnclosingPolygon3d",RO+"LaneletPath.cpp")])
p("M01","Object matching returns exactly the nearby lanelets in order",
  "Deterministic matching returns, for every object and distance, exactly the lanelets within that distance of the object (its hull, or its position without hull), each in both directions, sorted by distance. Probabilistic matching returns the same set with the squared Mahalanobis distance computed from position and heading deviation to the centerline, sorted by it, and rejects singular covariances; filtering keeps exactly the matches the traffic rules allow, in order.",
  ["inputs"],"all maps, objects, hulls, covariances, headings and distances",
  "tests use a few objects on one map",
  [("getDeterministicMatches/getProbabilisticMatches",MA+"LaneletMatching.cpp"),("getMahalanobisDistSq",MA+"Utilities.cpp"),("findWithin",MAI+"Utilities.h")])
p("V01","The validator reports exactly the defects its checks describe",
  "For every map, each enabled map check reports exactly one finding for each element that shows the defect (points closer than 5 cm, immediately repeated points, unknown, missing or non-boolean tags, excessive curvature) with the right severity and id, and none for elements without it; the filter selects exactly the checks whose name matches. Reports contain every finding once, split by severity, and validating a file reports loading problems instead of failing.",
  ["inputs","configurations"],"all maps, check filters and participants",
  "tests check one finding per check",
  [("validateMap",VA+"Validation.cpp"),("map checks",VA+"validators/CheckTags.cpp"),("PointsTooClose",VA+"validators/PointsTooClose.cpp"),("ValidatorFactory",VA+"ValidatorFactory.cpp")])
PY="lanelet2_python/python_api/"
p("Y01","Python objects are safe, live views of the primitives",
  "For every sequence of python operations on the objects of lanelet2.core (points, lines, polygons, attribute maps, lanelets, areas, regulatory elements, maps, submaps, layers), every object shows the current state of the primitive behind it, whichever object changed it; elements obtained from a container stay valid and unchanged when the container changes or is destroyed; the sequence and mapping interfaces behave like python's (negative indices, IndexError/KeyError, iteration, membership, None for missing or expired objects); constructors, with positional or keyword arguments, build exactly the type and content asked for; caches follow every modification. No operation crashes the interpreter.",
  ["inputs","histories"],"all operation histories and all ways of creating and holding objects",
  "tests make a few calls on fixed objects and do not change containers while elements of them are held",
  [("lanelet2.core",PY+"core.cpp"),("converters",PY+"../include/lanelet2_python/internal/converter.h")])
p("Y02","The python functions compute what they document, however they are called",
  "For every input, the functions of the python package (geometry, routing, traffic rules, matching, io, projection) return the result defined by their documentation for all classes their overloads accept, and give the same result for positional and keyword arguments and defaults as documented; routing costs implemented in python are asked with the documented arguments and determine the graph, exceptions raised in python callbacks arrive at the caller, returned objects outlive the objects they were obtained from, and maps written with any parameters come back unchanged. No call crashes the interpreter.",
  ["inputs","configurations"],"all maps, geometries, cost modules, callbacks, parameters and argument styles",
  "tests make a few positional calls with fixed inputs",
  [("lanelet2.geometry",PY+"geometry.cpp"),("lanelet2.routing",PY+"routing.cpp"),("lanelet2.traffic_rules",PY+"traffic_rules.cpp"),("lanelet2.matching",PY+"matching.cpp"),("lanelet2.io",PY+"io.cpp"),("lanelet2.projection",PY+"projection.cpp")])
p("Y03","The command line tools do what they say to every map",
  "For every map file, print_ids reports exactly the ids asked for and the layer they are in, or that there is none, make_ids_positive writes a map that differs from the original only in that every element has a positive unique id, and create_debug_routing_graph writes exactly the debug view of the routing graph of the map.",
  ["inputs"],"all maps with ids of both signs and shared elements, and all arguments",
  "no test runs the tools",
  [("print_ids",PY+"../scripts/print_ids.py"),("make_ids_positive",PY+"../scripts/make_ids_positive.py"),("create_debug_routing_graph",PY+"../scripts/create_debug_routing_graph.py")])
for x in P:
    for m in x["anchors"]["mechanism"]:
        m["where"]=os.path.normpath(m["where"])
    x["anchors"]["files"]=[os.path.normpath(f) for f in x["anchors"]["files"]]
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing",x["id"],f)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
