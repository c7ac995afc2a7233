From 01169ccefdd2cce2e9005df29cb465e2c4e89dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 01/74] fix: register the ids of all elements when a map is
 bulk-created

Only the area layer did so. utils::getId() and uniqueId() could issue ids
that lanelets, line strings, points, polygons or regulatory elements of a
bulk-created map already use.
---
 lanelet2_core/src/LaneletMap.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index ad53b2f..291ed80 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -330,6 +330,7 @@ PrimitiveLayer<T>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
@@ -338,6 +339,7 @@ PrimitiveLayer<Lanelet>::PrimitiveLayer(const PrimitiveLayer::Map& primitives)
     : elements_{primitives}, tree_{std::make_unique<Tree>(primitives)} {
   for (const auto& prim : primitives) {
     tree_->usage.add(prim.second);
+    utils::registerId(prim.first);
   }
 }
 
-- 
2.43.0


From e724e970575caccbeca6695b17b777fdbf8172dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 02/74] fix: findNearest with a count of zero read past an
 empty vector

---
 lanelet2_core/src/LaneletMap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 291ed80..401a602 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -971,6 +971,9 @@ auto findNearestImpl(LayerT&& map, const BasicPoint2d& pt, unsigned count) {
   // If this distance is greater than the actual distance (between primitives)
   // of the count-th furthest current element, then we can stop, because all
   // succeding elements will be even further away.
+  if (count == 0) {
+    return std::vector<std::pair<double, RetT>>{};
+  }
   NSmallestElements<RetT> closest(count);
   auto searchFunction = [&closest, &pt](auto& box, const RetT& prim) {
     auto dBox = distance(box, pt);
-- 
2.43.0


From 467fdea6e089ce0a662ee43a0b7881ed2329ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 03/74] fix: adding an element twice to a LaneletSubmap
 duplicated it

The element was inserted into the spatial index and the usage lookup once
more, so that search(), nearest() and findUsages() returned it repeatedly.
LaneletMap::add already ignores elements that it contains.
---
 lanelet2_core/src/LaneletMap.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 401a602..912df89 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -685,34 +685,52 @@ void LaneletMap::add(Point3d point) {
 }
 
 void LaneletSubmap::add(Lanelet lanelet) {
+  if (laneletLayer.exists(lanelet.id())) {
+    return;
+  }
   checkId(lanelet);
   utils::forEach(lanelet.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
   laneletLayer.add(lanelet);
 }
 
 void LaneletSubmap::add(Area area) {
+  if (areaLayer.exists(area.id())) {
+    return;
+  }
   checkId(area);
   utils::forEach(area.regulatoryElements(), [&](auto& regElem) { this->trackParameters(*regElem); });
   areaLayer.add(area);
 }
 
 void LaneletSubmap::add(const RegulatoryElementPtr& regElem) {
+  if (regulatoryElementLayer.exists(regElem->id())) {
+    return;
+  }
   checkId(*regElem);
   trackParameters(*regElem);
   regulatoryElementLayer.add(regElem);
 }
 
 void LaneletSubmap::add(Polygon3d polygon) {
+  if (polygonLayer.exists(polygon.id())) {
+    return;
+  }
   checkId(polygon);
   polygonLayer.add(polygon);
 }
 
 void LaneletSubmap::add(LineString3d lineString) {
+  if (lineStringLayer.exists(lineString.id())) {
+    return;
+  }
   checkId(lineString);
   lineStringLayer.add(lineString);
 }
 
 void LaneletSubmap::add(Point3d point) {
+  if (pointLayer.exists(point.id())) {
+    return;
+  }
   checkId(point);
   pointLayer.add(point);
 }
-- 
2.43.0


From 3661947eecfc67b08817533c61e2e44e02284949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 04/74] fix: move-assigning points to an inverted line string
 kept their order

utils::invert returns the inverted container and leaves its argument alone.
---
 lanelet2_core/include/lanelet2_core/primitives/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/LineString.h b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
index 5416d99..b82fda4 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/LineString.h
@@ -397,7 +397,7 @@ class LineStringImpl : public Primitive<ConstLineStringT> {
   //! Move assign from a normal vector. Id and attributes stay unchanged.
   LineStringImpl& operator=(std::vector<Point3d>&& rhs) {
     if (inverted()) {
-      utils::invert(rhs);
+      std::reverse(rhs.begin(), rhs.end());
     }
     points() = std::move(rhs);
     return *this;
-- 
2.43.0


From 04b3674e09d2525554b2a725210a5d2cf20f6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 05/74] fix: compound polygons without segments reported one
 segment

This also agrees with ConstPolygon3d::numSegments and ConstPolygon2d::numSegments now.
---
 .../include/lanelet2_core/primitives/CompoundPolygon.h    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h b/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h
index 750fb03..5a1eaf0 100644
--- a/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h
+++ b/lanelet2_core/include/lanelet2_core/primitives/CompoundPolygon.h
@@ -27,7 +27,7 @@ class CompoundPolygon2d : public CompoundLineStringImpl<ConstPoint2d> {
   explicit CompoundPolygon2d(const CompoundLineString2d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundLineString2d() const { return CompoundLineString2d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
 
   BasicLineString basicLineString() = delete;
   BasicPolygon2d basicPolygon() const { return {basicBegin(), basicEnd()}; }
@@ -55,7 +55,7 @@ class CompoundPolygon3d : public CompoundLineStringImpl<ConstPoint3d> {
   explicit CompoundPolygon3d(const CompoundLineString3d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundLineString3d() const { return CompoundLineString3d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
 
   BasicLineString basicLineString() = delete;
   BasicPolygon3d basicPolygon() const {
@@ -87,7 +87,7 @@ class CompoundHybridPolygon2d : public CompoundLineStringImpl<BasicPoint2d> {
   explicit CompoundHybridPolygon2d(const CompoundHybridLineString2d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundHybridLineString2d() const { return CompoundHybridLineString2d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
   BasicLineString basicLineString() = delete;
   BasicPolygon2d basicPolygon() const { return {basicBegin(), basicEnd()}; }
 };
@@ -115,7 +115,7 @@ class CompoundHybridPolygon3d : public CompoundLineStringImpl<BasicPoint3d> {
   explicit CompoundHybridPolygon3d(const CompoundHybridLineString3d& other) : CompoundLineStringImpl(other) {}
   explicit operator CompoundHybridLineString3d() const { return CompoundHybridLineString3d(constData(), inverted()); }
   //! Returns the number of (geometrically valid) segments.
-  size_t numSegments() const noexcept { return std::max(size_t(1), size()); }
+  size_t numSegments() const noexcept { return size() < 2 ? 0 : size(); }
   BasicLineString basicLineString() = delete;
   BasicPolygon3d basicPolygon() const { return {basicBegin(), basicEnd()}; }
 };
-- 
2.43.0


From 83f2c564850abdf35f5c11ee11d6662b8ef1b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 06/74] fix: reading an attribute could dereference a cache
 released by another thread

load() returned a pointer into the cached object without keeping it alive and
looked at the non-atomic member again. A concurrent typed read (also const)
that replaced the cache freed the object while it was still in use.
---
 lanelet2_core/src/Attribute.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index bac48c3..de4d032 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -37,12 +37,11 @@ T store(std::shared_ptr<Attribute::Cache>& cache, T&& value) {
 }
 
 template <typename T>
-T* load(const std::shared_ptr<Attribute::Cache>& cache) {
+Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
   auto c = std::atomic_load_explicit(&cache, std::memory_order_acquire);
-  if (!c) {
-    return nullptr;
-  }
-  return boost::get<T>(&*cache);
+  // other threads can replace the cache at any time, only the object held by c stays valid
+  auto* val = boost::get<T>(c.get());
+  return val != nullptr ? Optional<T>(*val) : Optional<T>();
 }
 }  // namespace
 
@@ -60,8 +59,8 @@ Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQu
 
 Optional<bool> Attribute::asBool() const {
   // try load from cache
-  auto* val = load<bool>(cache_);
-  if (val != nullptr) {
+  auto val = load<bool>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -80,8 +79,8 @@ Optional<bool> Attribute::asBool() const {
 
 Optional<double> Attribute::asDouble() const {
   // try load from cache
-  auto* val = load<double>(cache_);
-  if (val != nullptr) {
+  auto val = load<double>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -94,8 +93,8 @@ Optional<double> Attribute::asDouble() const {
 
 Optional<Id> Attribute::asId() const {
   // try load from cache
-  auto* val = load<Id>(cache_);
-  if (val != nullptr) {
+  auto val = load<Id>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -108,8 +107,8 @@ Optional<Id> Attribute::asId() const {
 
 Optional<int> Attribute::asInt() const {
   // try load from cache
-  auto* val = load<int>(cache_);
-  if (val != nullptr) {
+  auto val = load<int>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
@@ -122,8 +121,8 @@ Optional<int> Attribute::asInt() const {
 
 Optional<Velocity> Attribute::asVelocity() const {
   // try load from cache
-  auto* val = load<Velocity>(cache_);
-  if (val != nullptr) {
+  auto val = load<Velocity>(cache_);
+  if (!!val) {
     return *val;
   }
   // need to compute value
-- 
2.43.0


From 2d8a29c07cb8046945213fd4ff7c3cb5e27133eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 07/74] fix: velocities with an unknown unit were read as if
 they had a similar one

The units were searched anywhere in the text, so that e.g. '50 kmph' was read
as 50 miles per hour and '50 km/s' as 50 m/s.
---
 lanelet2_core/src/Attribute.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index de4d032..d3f25b8 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -17,13 +17,13 @@ Optional<Velocity> getUnit(const std::string& value, size_t pos) {
   auto unit = value.substr(pos);
   const auto flags = std::regex::ECMAScript;
   // try to match unit
-  if (std::regex_search(unit, std::regex("\\s*(m/s)|(mps)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(m/s|mps)\\s*", flags))) {
     return 1_mps;
   }
-  if (std::regex_search(unit, std::regex("\\s*(km/h)|(kmh)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(km/h|kmh)\\s*", flags))) {
     return 1_kmh;
   }
-  if (std::regex_search(unit, std::regex("\\s*(m/h)|(mph)", flags))) {
+  if (std::regex_match(unit, std::regex("\\s*(m/h|mph)\\s*", flags))) {
     return 1_mph;
   }
   return {};
-- 
2.43.0


From aafdfe4f9929685898a2488b69b4c52a79bcf143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 08/74] fix: attributes lost the precision of the number they
 were created from

The text kept six decimals while the cache held the exact value, so that
asDouble() changed its result once another typed read had replaced the cache.
---
 lanelet2_core/src/Attribute.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lanelet2_core/src/Attribute.cpp b/lanelet2_core/src/Attribute.cpp
index d3f25b8..c625ecd 100644
--- a/lanelet2_core/src/Attribute.cpp
+++ b/lanelet2_core/src/Attribute.cpp
@@ -2,6 +2,8 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/variant/get.hpp>
+#include <cstdio>
+#include <cstdlib>
 #include <regex>
 
 #include "lanelet2_core/Exceptions.h"
@@ -43,6 +45,17 @@ Optional<T> load(const std::shared_ptr<Attribute::Cache>& cache) {
   auto* val = boost::get<T>(c.get());
   return val != nullptr ? Optional<T>(*val) : Optional<T>();
 }
+
+//! The text is what gets stored and reread, so it has to represent the exact value
+std::string toText(double value) {
+  auto text = std::to_string(value);
+  if (std::strtod(text.c_str(), nullptr) == value || value != value) {
+    return text;
+  }
+  char buf[32];
+  std::snprintf(buf, sizeof(buf), "%.17g", value);
+  return buf;
+}
 }  // namespace
 
 Attribute::Attribute(Id value) : value_(std::to_string(value)) { store(cache_, value); }
@@ -51,9 +64,9 @@ Attribute::Attribute(bool value) : value_(std::to_string(int(value))) { store(ca
 
 Attribute::Attribute(int value) : value_(std::to_string(value)) { store(cache_, value); }
 
-Attribute::Attribute(double value) : value_(std::to_string(value)) { store(cache_, value); }
+Attribute::Attribute(double value) : value_(toText(value)) { store(cache_, value); }
 
-Attribute::Attribute(const Velocity& value) : value_{std::to_string(units::KmHQuantity(value).value())} {
+Attribute::Attribute(const Velocity& value) : value_{toText(units::KmHQuantity(value).value())} {
   store(cache_, value);
 }
 
-- 
2.43.0


From 3bae39d9cdf2e3c7310087936b28b9c9f10e1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 09/74] fix: an all way stop returned a wrong stop line once a
 lanelet expired

The stop lines were indexed with the position among the remaining lanelets.
---
 lanelet2_core/src/BasicRegulatoryElements.cpp | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lanelet2_core/src/BasicRegulatoryElements.cpp b/lanelet2_core/src/BasicRegulatoryElements.cpp
index d27909e..356944c 100644
--- a/lanelet2_core/src/BasicRegulatoryElements.cpp
+++ b/lanelet2_core/src/BasicRegulatoryElements.cpp
@@ -366,6 +366,24 @@ ConstLineStrings3d TrafficSign::cancelLines() const { return getParameters<Const
 
 LineStrings3d TrafficSign::cancelLines() { return getParameters<LineString3d>(RoleName::CancelLine); }
 
+namespace {
+//! Position of a lanelet in the yield parameters. Lanelets that expired still take their place there.
+Optional<size_t> findYieldLanelet(const RuleParameterMap& parameters, const ConstLanelet& llt) {
+  auto yields = parameters.find(RoleName::Yield);
+  if (yields == parameters.end()) {
+    return {};
+  }
+  auto it = std::find_if(yields->second.begin(), yields->second.end(), [&llt](const RuleParameter& param) {
+    auto* weak = boost::get<WeakLanelet>(&param);
+    return weak != nullptr && !weak->expired() && ConstLanelet(weak->lock()) == llt;
+  });
+  if (it == yields->second.end()) {
+    return {};
+  }
+  return size_t(std::distance(yields->second.begin(), it));
+}
+}  // namespace
+
 ConstLanelets AllWayStop::lanelets() const { return getParameters<ConstLanelet>(RoleName::Yield); }
 
 Lanelets AllWayStop::lanelets() { return utils::strong(getParameters<WeakLanelet>(RoleName::Yield)); }
@@ -379,12 +397,11 @@ Optional<ConstLineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) con
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto pos = findYieldLanelet(parameters(), llt);
+  if (!pos) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*pos);
 }
 
 Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
@@ -392,12 +409,11 @@ Optional<LineString3d> AllWayStop::getStopLine(const ConstLanelet& llt) {
   if (sl.empty()) {
     return {};
   }
-  auto llts = lanelets();
-  auto it = std::find(llts.begin(), llts.end(), llt);
-  if (it == llts.end()) {
+  auto pos = findYieldLanelet(parameters(), llt);
+  if (!pos) {
     return {};
   }
-  return sl.at(size_t(std::distance(llts.begin(), it)));
+  return sl.at(*pos);
 }
 
 ConstLineStringsOrPolygons3d AllWayStop::trafficSigns() const {
-- 
2.43.0


From f9da42bffb99b0a03ed1e51e1f1910dce770de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 10/74] fix: the centerline of lanelets closed at their
 beginning could leave the lanelet

Every connection that starts at the common first point of both bounds was
considered to cross the other bound. If no other candidate was found, the
centerline consisted of just a straight connection to the end.
---
 lanelet2_core/src/Lanelet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index 58753ae..cbcd9cd 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -69,6 +69,12 @@ class BoundChecker {
     const auto& segmentTree = left ? leftSegments_ : rightSegments_;
     for (auto it = segmentTree.qbegin(bgi::intersects(seg)); it != segmentTree.qend(); ++it) {
       using boost::geometry::equals;
+      // if the lanelet is closed at its beginning, the connection can start at the common first point of both bounds.
+      // Then it is only outside if it leaves this point on the outer side.
+      if (equals(it->first, seg.first) &&
+          geometry::internal::pointIsLeftOf(it->first, it->second, seg.second) != left) {
+        continue;
+      }
       if (!equals(it->first, seg.second) && !equals(it->second, seg.second)) {
         return true;
       }
-- 
2.43.0


From 9a933741c1a179e09bdf1563b65c0a5e578ddcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 11/74] fix: centerline of a lanelet with a one-point left
 bound read past the bound

The iterator was advanced to the end if the only point of the left bound is
the first point of the right bound.
---
 lanelet2_core/src/Lanelet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/Lanelet.cpp b/lanelet2_core/src/Lanelet.cpp
index cbcd9cd..7a9e78e 100644
--- a/lanelet2_core/src/Lanelet.cpp
+++ b/lanelet2_core/src/Lanelet.cpp
@@ -200,7 +200,7 @@ std::shared_ptr<ConstLineString3d> calculateCenterline(const ConstLineString2d&
   auto leftCurrent = leftBound.begin();
   auto rightCurrent = rightBound.begin();
   // special handling is required if the first two points are identical (i.e. the lanelet is closed at the beginning)
-  if (*leftCurrent == *rightCurrent) {
+  if (*leftCurrent == *rightCurrent && leftBound.size() > 1) {
     ++leftCurrent;
   }
   while (leftCurrent != leftBound.end() || rightCurrent != rightBound.end()) {
-- 
2.43.0


From a72a97714b407dbfe15616b2789de9a4adb67ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 12/74] fix: copying an attribute raced with reading it in
 another thread

---
 lanelet2_core/include/lanelet2_core/Attribute.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lanelet2_core/include/lanelet2_core/Attribute.h b/lanelet2_core/include/lanelet2_core/Attribute.h
index 6319eda..ad37861 100644
--- a/lanelet2_core/include/lanelet2_core/Attribute.h
+++ b/lanelet2_core/include/lanelet2_core/Attribute.h
@@ -46,6 +46,13 @@ class Attribute {
   Attribute(double value);                                      // NOLINT
   Attribute(const Velocity& value);                             // NOLINT
 
+  // reading a value can update the cache of rhs from another thread at any time
+  Attribute(const Attribute& rhs) : value_{rhs.value_}, cache_{std::atomic_load(&rhs.cache_)} {}
+  Attribute(Attribute&& rhs) noexcept = default;
+  Attribute& operator=(const Attribute& rhs) { return *this = Attribute(rhs); }
+  Attribute& operator=(Attribute&& rhs) noexcept = default;
+  ~Attribute() = default;
+
   /**
    * @brief interpret this attribute as bool value
    * @throw ConversionError if the attribute could not be interpreted as bool
-- 
2.43.0


From 619e3e770007de6a6faeaaa463942b0338e5e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 13/74] fix: arc coordinates of line strings that visit a point
 twice

---
 lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index a6461cf..fecdc03 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -728,7 +728,8 @@ ArcCoordinates toArcCoordinates(const LineString2dT& lineString, const BasicPoin
   // find first point in segment in linestring
   double length = 0.;
   auto accumulateLength = [&](const auto& first, const auto& second) {
-    if (boost::geometry::equals(first, projectedPoint.closestSegment.first)) {
+    if (boost::geometry::equals(first, projectedPoint.closestSegment.first) &&
+        boost::geometry::equals(second, projectedPoint.closestSegment.second)) {
       return true;
     }
     length += distance(first, second);
-- 
2.43.0


From ee3cf7a1797e14bea0d2331d88205d04f1505627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 14/74] fix: sign of the distance to a corner if the segment
 behind the corner is the closest one

---
 .../lanelet2_core/geometry/impl/LineString.h  | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index fecdc03..cf8a59c 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -74,21 +74,37 @@ struct ProjectedPointInfo {
   PointT projectedPoint;
 };
 
+// returns the iterator to the first point of a segment. Points alone are not unique if the line string visits them twice.
+template <typename LineStringT, typename SegmentT>
+auto findSegment(const LineStringT& ls, const SegmentT& segment) {
+  return std::adjacent_find(ls.begin(), ls.end(), [&segment](const auto& p1, const auto& p2) {
+    return boost::geometry::equals(p1, segment.first) && boost::geometry::equals(p2, segment.second);
+  });
+}
+
 template <typename LineStringT, typename BasicPointT>
 bool isLeftOf(const LineStringT& ls, const BasicPointT& p, const ProjectedPointInfo<BasicPointT>& ppInfo) {
-  BasicPointT pSeg1 = ppInfo.closestSegment.first;
-  BasicPointT pSeg2 = ppInfo.closestSegment.second;
-  bool isLeft = pointIsLeftOf(pSeg1, pSeg2, p);
-  if (pSeg2 == ppInfo.projectedPoint) {
-    auto nextSegPointIt = std::next(findPoint(ls, pSeg2));
-    if (nextSegPointIt != ls.end()) {
-      // see stackoverflow.com/questions/10583212
-      BasicPointT nextSegPoint;
-      boost::geometry::convert(*nextSegPointIt, nextSegPoint);
-      if (isLeft != pointIsLeftOf(pSeg2, nextSegPoint, p) && isLeft == pointIsLeftOf(pSeg1, pSeg2, nextSegPoint)) {
-        return !isLeft;
-      }
-    }
+  const BasicPointT pSeg1 = ppInfo.closestSegment.first;
+  const BasicPointT pSeg2 = ppInfo.closestSegment.second;
+  const bool isLeft = pointIsLeftOf(pSeg1, pSeg2, p);
+  const bool closeToEnd = pSeg2 == ppInfo.projectedPoint;
+  const bool closeToStart = pSeg1 == ppInfo.projectedPoint;
+  if (!closeToEnd && !closeToStart) {
+    return isLeft;
+  }
+  const auto segmentIt = findSegment(ls, ppInfo.closestSegment);
+  if (segmentIt == ls.end()) {
+    return isLeft;
+  }
+  // the neighbouring segment is equally close. See stackoverflow.com/questions/10583212
+  BasicPointT other;
+  if (closeToEnd && std::next(segmentIt, 2) != ls.end()) {
+    boost::geometry::convert(*std::next(segmentIt, 2), other);
+    return isLeft == pointIsLeftOf(pSeg2, other, p) ? isLeft : !pointIsLeftOf(pSeg1, pSeg2, other);
+  }
+  if (closeToStart && segmentIt != ls.begin()) {
+    boost::geometry::convert(*std::prev(segmentIt), other);
+    return isLeft == pointIsLeftOf(other, pSeg1, p) ? isLeft : !pointIsLeftOf(other, pSeg1, pSeg2);
   }
   return isLeft;
 }
-- 
2.43.0


From 33d2db21d0943aee14b3971ad8dbed18dc2ca316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 15/74] fix: heights of inclined line strings in intersects3d

---
 .../lanelet2_core/geometry/impl/LineString.h  | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index cf8a59c..c38c43d 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -82,6 +82,27 @@ auto findSegment(const LineStringT& ls, const SegmentT& segment) {
   });
 }
 
+// returns the height of a linestring at a point that is (in 2d) on the linestring
+template <typename LineString3dT>
+double heightAt(const LineString3dT& lineString, const BasicPoint2d& p) {
+  auto ls = traits::toHybrid(lineString);
+  double height = 0.;
+  double closest = std::numeric_limits<double>::infinity();
+  for (auto it = ls.begin(); it != ls.end(); ++it) {
+    const BasicPoint3d start = traits::toBasicPoint(*it);
+    const BasicPoint3d end = std::next(it) == ls.end() ? start : BasicPoint3d(traits::toBasicPoint(*std::next(it)));
+    const BasicPoint2d segment = end.head<2>() - start.head<2>();
+    const double length2 = segment.squaredNorm();
+    const double ratio = length2 > 0. ? std::min(1., std::max(0., segment.dot(p - start.head<2>()) / length2)) : 0.;
+    const double dist = (start.head<2>() + ratio * segment - p).norm();
+    if (dist < closest) {
+      closest = dist;
+      height = start.z() + ratio * (end.z() - start.z());
+    }
+  }
+  return height;
+}
+
 template <typename LineStringT, typename BasicPointT>
 bool isLeftOf(const LineStringT& ls, const BasicPointT& p, const ProjectedPointInfo<BasicPointT>& ppInfo) {
   const BasicPointT pSeg1 = ppInfo.closestSegment.first;
@@ -795,9 +816,8 @@ IfLS<LineString3dT, bool> intersects3d(const LineString3dT& linestring, const Li
   BasicPoints2d intersections;
   boost::geometry::intersection(ls2d, ols2d, intersections);
   auto distanceSmallerTolerance = [heightTolerance, &linestring, &otherLinestring](const auto& point) {
-    auto pProj1 = project(linestring, BasicPoint3d(point.x(), point.y(), 0));
-    auto pProj2 = project(otherLinestring, BasicPoint3d(point.x(), point.y(), 0));
-    return distance(pProj1, pProj2) < heightTolerance;
+    return std::abs(internal::heightAt(linestring, point) - internal::heightAt(otherLinestring, point)) <
+           heightTolerance;
   };
   return std::any_of(intersections.begin(), intersections.end(), distanceSmallerTolerance);
 }
-- 
2.43.0


From 90f7e5ea0264bed69f4884288ae38c082933a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 16/74] fix: distance of polygon borders ignored the closing
 segment

---
 lanelet2_core/src/LineStringGeometry.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LineStringGeometry.cpp b/lanelet2_core/src/LineStringGeometry.cpp
index 5cf07b6..105203f 100644
--- a/lanelet2_core/src/LineStringGeometry.cpp
+++ b/lanelet2_core/src/LineStringGeometry.cpp
@@ -119,6 +119,16 @@ PointT projectedPoint(PointT l1, PointT l2, PointT p) {
   return v * b + l1;
 }
 
+// the border of a polygon also has a segment from the last to the first point
+template <typename RangeT, typename Func>
+void distForClosingSegment(const RangeT& r, Func f, traits::PolygonTag /*unused*/) {
+  if (r.size() > 2) {
+    f(r.back(), r.front());
+  }
+}
+template <typename RangeT, typename Func, typename TagT>
+void distForClosingSegment(const RangeT& /*r*/, Func /*f*/, TagT /*unused*/) {}
+
 template <typename RangeT, typename Func>
 void distForAllSegments(const RangeT& r, Func f) {
   if (r.size() == 1) {
@@ -126,9 +136,10 @@ void distForAllSegments(const RangeT& r, Func f) {
   }
   for (auto first = r.begin(), second = r.begin() + 1; second != r.end(); ++first, ++second) {
     if (f(*first, *second) == 0.) {
-      break;
+      return;
     }
   }
+  distForClosingSegment(r, f, typename traits::PrimitiveTraits<RangeT>::Category{});
 }
 
 namespace bg = boost::geometry;
-- 
2.43.0


From 51e6c9e0161b80b076ce7c9051aae46ad65c3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 17/74] fix: intersectCenterlines2d measured the other distance
 along the wrong centerline

---
 lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
index 39a82a0..e522fdd 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
@@ -102,7 +102,7 @@ BasicPoints2d intersectCenterlines2d(const Lanelet1T& lanelet, const Lanelet2T&
   }
   if (distanceOther != nullptr) {
     std::transform(intersections.begin(), intersections.end(), std::back_inserter(*distanceOther),
-                   [&centerline](const auto& elem) { return toArcCoordinates(centerline, elem).length; });
+                   [&otherCenterline](const auto& elem) { return toArcCoordinates(otherCenterline, elem).length; });
   }
   return intersections;
 }
-- 
2.43.0


From b14502114d389c5644ad31d3f6d4a304c315b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 18/74] fix: overlaps2d treated lanelets that meet at their
 ends differently once inverted

---
 lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
index e522fdd..28953c7 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h
@@ -70,7 +70,7 @@ IfLL<Lanelet1T, bool> overlaps2d(const Lanelet1T& lanelet, const Lanelet2T& othe
       lanelet.leftBound().invert() == otherLanelet.leftBound() ||
       lanelet.rightBound().invert() == otherLanelet.rightBound() || follows(lanelet, otherLanelet) ||
       follows(otherLanelet, lanelet) || follows(lanelet.invert(), otherLanelet) ||
-      follows(otherLanelet.invert(), lanelet)) {
+      follows(lanelet, otherLanelet.invert())) {
     return false;
   }
   if (!intersects(boundingBox2d(lanelet), boundingBox2d(otherLanelet))) {
-- 
2.43.0


From c8dfb244024062f7ad60763b1d75958b0f95563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 19/74] fix: holes of areas loaded from osm are
 counter-clockwise

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 4e1f6a6..26baf71 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -285,7 +285,12 @@ class FromFileLoader {  // NOLINT
 
   std::vector<LineStrings3d> getInnerRing(const osm::Relation& area) {
     auto innerLs = getLinestrings(area.members, RoleNameString::Inner, area.id);
-    return assembleBoundary(innerLs, area.id);
+    auto innerRings = assembleBoundary(innerLs, area.id);
+    // assembleBoundary creates clockwise rings, but holes are counter-clockwise
+    for (auto& ring : innerRings) {
+      reverse(ring);
+    }
+    return innerRings;
   }
 
   RuleParameterMap getRulesForRegulatoryElement(Id currElemId, const osm::Roles& roles) {
-- 
2.43.0


From 877a95482b3867d21620d5064cd60175aca60ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 20/74] fix: orientation of hand-set centerlines loaded from
 osm

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 26baf71..0fa4de8 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -35,6 +35,17 @@ void reverse(LineStrings3d& lss) {
   std::reverse(lss.begin(), lss.end());
 }
 
+// The direction of a way within a relation is not stored. Chooses the one in which both lines run side by side.
+LineString3d alignTo(const LineString3d& reference, const LineString3d& ls) {
+  if (reference.empty() || ls.empty()) {
+    return ls;
+  }
+  auto dist = [](const ConstPoint2d& p1, const ConstPoint2d& p2) { return (p1.basicPoint() - p2.basicPoint()).norm(); };
+  auto same = dist(to2D(reference.front()), to2D(ls.front())) + dist(to2D(reference.back()), to2D(ls.back()));
+  auto opposite = dist(to2D(reference.front()), to2D(ls.back())) + dist(to2D(reference.back()), to2D(ls.front()));
+  return opposite < same ? ls.invert() : ls;
+}
+
 template <typename PrimT>
 PrimT getDummy(Id id) {
   return PrimT(id);
@@ -143,7 +154,7 @@ class FromFileLoader {  // NOLINT
       Lanelet lanelet(id, left, right, attributes);
       if (findRole(llElem.members, RoleNameString::Centerline) != llElem.members.end()) {
         auto center = getLaneletBorder(llElem, RoleNameString::Centerline);
-        lanelet.setCenterline(center);
+        lanelet.setCenterline(alignTo(left, center));
       }
 
       lanelets_.emplace(id, lanelet);
-- 
2.43.0


From e90f67586dddba00164793da9d64a5e269dfe117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 21/74] fix: osm writer misplaced members after a reference
 that is not in the map

---
 lanelet2_io/src/OsmHandlerWrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmHandlerWrite.cpp b/lanelet2_io/src/OsmHandlerWrite.cpp
index a397ea4..c51f09c 100644
--- a/lanelet2_io/src/OsmHandlerWrite.cpp
+++ b/lanelet2_io/src/OsmHandlerWrite.cpp
@@ -29,7 +29,8 @@ void removeAndFixPlaceholders(osm::Primitive** toRemove, osm::Roles& fromRoles,
   std::vector<std::pair<size_t, osm::Primitive**>> placeholderLocations;
   for (auto it = fromRoles.begin(); it != fromRoles.end(); ++it) {
     if (it->second == nullptr && remIt != it) {
-      placeholderLocations.emplace_back(std::distance(fromRoles.begin(), it), &it->second);
+      auto idx = std::distance(fromRoles.begin(), it);
+      placeholderLocations.emplace_back(it > remIt ? idx - 1 : idx, &it->second);  // location after remIt is gone
     }
   }
   fromRoles.erase(remIt);
-- 
2.43.0


From 47c99f6cbc55b4cd796bb3d16c5ee0d751c4c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 22/74] fix: binary writer reports failed writes as WriteError

---
 lanelet2_io/src/BinHandler.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index 8d22edc..b697ee5 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -23,10 +23,18 @@ void BinWriter::write(const std::string& filename, const LaneletMap& laneletMap,
   if (!fs.good()) {
     throw ParseError("Failed open archive " + filename);
   }
-  boost::archive::binary_oarchive oa(fs);
-  oa << laneletMap;
-  auto idCounter = utils::getId();
-  oa << idCounter;
+  try {
+    boost::archive::binary_oarchive oa(fs);
+    oa << laneletMap;
+    auto idCounter = utils::getId();
+    oa << idCounter;
+    fs.flush();  // otherwise errors while writing the buffered data would get lost
+  } catch (boost::archive::archive_exception& e) {
+    throw WriteError("Failed to write archive " + filename + ": " + e.what());
+  }
+  if (!fs.good()) {
+    throw WriteError("Failed to write archive " + filename);
+  }
 }
 
 std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorMessages& /*errors*/) const {
-- 
2.43.0


From d15c3577a3d137f9e13413febcd48442ce79aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 23/74] fix: signed overflow when registering the largest
 possible id

---
 lanelet2_core/src/LaneletMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/src/LaneletMap.cpp b/lanelet2_core/src/LaneletMap.cpp
index 912df89..2044393 100644
--- a/lanelet2_core/src/LaneletMap.cpp
+++ b/lanelet2_core/src/LaneletMap.cpp
@@ -904,7 +904,7 @@ Id getId() { return currId++; }
 
 void registerId(Id id) {
   // this fuzz is needed because we want to be thread safe
-  Id newId = id + 1;
+  Id newId = id < std::numeric_limits<Id>::max() ? id + 1 : id;
   Id current = currId.load();
   while (current < newId && !currId.compare_exchange_weak(current, newId)) {
   }
-- 
2.43.0


From 9bf62e8d37060e71f6c135811d4ac28176185100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 24/74] fix: damaged binary maps are reported as ParseError

---
 lanelet2_io/src/BinHandler.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lanelet2_io/src/BinHandler.cpp b/lanelet2_io/src/BinHandler.cpp
index b697ee5..ef2a863 100644
--- a/lanelet2_io/src/BinHandler.cpp
+++ b/lanelet2_io/src/BinHandler.cpp
@@ -2,6 +2,7 @@
 
 #include <boost/archive/binary_iarchive.hpp>
 #include <boost/archive/binary_oarchive.hpp>
+#include <exception>
 #include <fstream>
 
 #include "lanelet2_io/Exceptions.h"
@@ -43,10 +44,14 @@ std::unique_ptr<LaneletMap> BinParser::parse(const std::string& filename, ErrorM
     throw ParseError("Failed open archive " + filename);
   }
   std::unique_ptr<LaneletMap> laneletMap = std::make_unique<LaneletMap>();
-  boost::archive::binary_iarchive ia(fs);
-  ia >> *laneletMap;
   Id idCounter = 0;
-  ia >> idCounter;
+  try {
+    boost::archive::binary_iarchive ia(fs);
+    ia >> *laneletMap;
+    ia >> idCounter;
+  } catch (std::exception& e) {  // depending on the damage these are not only archive exceptions
+    throw ParseError("Failed to read archive " + filename + ": " + e.what());
+  }
   utils::registerId(idCounter);
   return laneletMap;
 }
-- 
2.43.0


From 846450caf6bce180c60348ffeb62872180b5488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 25/74] fix: unclosed rings of areas were dropped without an
 error

---
 lanelet2_io/src/OsmHandlerLoad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_io/src/OsmHandlerLoad.cpp b/lanelet2_io/src/OsmHandlerLoad.cpp
index 0fa4de8..dc752ac 100644
--- a/lanelet2_io/src/OsmHandlerLoad.cpp
+++ b/lanelet2_io/src/OsmHandlerLoad.cpp
@@ -388,6 +388,9 @@ class FromFileLoader {  // NOLINT
         rings.emplace_back(LineStrings3d());
       }
     }
+    if (!rings.back().empty()) {
+      parserError(id, "Could not complete boundary around linestring " + std::to_string(rings.back().back().id()));
+    }
     rings.pop_back();  // last ring will be empty or invalid
     return rings;
   }
-- 
2.43.0


From e89cc915f8de73ac3e007a12cf79d06907ab00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 26/74] fix: osm members of unknown type were dropped without
 an error

---
 lanelet2_io/src/OsmFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 55df1bf..1d5f5af 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -279,6 +279,8 @@ class OsmFileParser {
             // insert a placeholder and store a pointer to it for the second pass
             roles.emplace_back(role, nullptr);
             unresolvedRoles.push_back(UnresolvedRole{id, memberId, &roles.back().second});
+          } else {
+            reportParseError(id, "Relation has member " + std::to_string(memberId) + " of unknown type '" + type + "'");
           }
         } catch (std::out_of_range&) {
           reportParseError(id, "Relation has nonexistent member " + std::to_string(memberId));
-- 
2.43.0


From e17cafce3f19dd594880907885a6424c81a6fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 27/74] fix: invalid and duplicate ids in osm files were
 accepted without an error

---
 lanelet2_io/src/OsmFile.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 1d5f5af..ed7fb31 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -192,7 +192,7 @@ class OsmFileParser {
     OsmFileParser osmParser;
     File file;
     auto osmNode = fileNode.child(keyword::Osm);
-    file.nodes = lanelet::osm::OsmFileParser::readNodes(osmNode);
+    file.nodes = osmParser.readNodes(osmNode);
     file.ways = osmParser.readWays(osmNode, file.nodes);
     file.relations = osmParser.readRelations(osmNode, file.nodes, file.ways);
     if (errors != nullptr) {
@@ -202,7 +202,7 @@ class OsmFileParser {
   }
 
  private:
-  static Nodes readNodes(const pugi::xml_node& osmNode) {
+  Nodes readNodes(const pugi::xml_node& osmNode) {
     Nodes nodes;
     for (auto node = osmNode.child(keyword::Node); node;  // NOLINT
          node = node.next_sibling(keyword::Node)) {
@@ -210,6 +210,9 @@ class OsmFileParser {
         continue;
       }
       const auto id = node.attribute(keyword::Id).as_llong(InvalId);
+      if (!checkId(id, nodes)) {
+        continue;
+      }
       const auto attributes = tags(node);
       const auto lat = node.attribute(keyword::Lat).as_double(0.);
       const auto lon = node.attribute(keyword::Lon).as_double(0.);
@@ -229,6 +232,9 @@ class OsmFileParser {
         continue;
       }
       const auto id = node.attribute(keyword::Id).as_llong(InvalId);
+      if (!checkId(id, ways)) {
+        continue;
+      }
       const auto attributes = tags(node);
       const auto nodeIds = [&node] {
         Ids ids;
@@ -260,6 +266,9 @@ class OsmFileParser {
         continue;
       }
       const auto id = node.attribute(keyword::Id).as_llong(InvalId);
+      if (!checkId(id, relations)) {
+        continue;
+      }
       const auto attributes = tags(node);
       auto& relation = relations.emplace(id, Relation{id, attributes, {}}).first->second;
 
@@ -306,6 +315,18 @@ class OsmFileParser {
   }
 
   OsmFileParser() = default;
+  template <typename PrimitivesT>
+  bool checkId(Id id, const PrimitivesT& primitives) {
+    if (id == InvalId) {
+      reportParseError(id, "Primitive has no valid id");
+      return false;
+    }
+    if (primitives.find(id) != primitives.end()) {
+      reportParseError(id, "Id is used more than once");
+      return false;
+    }
+    return true;
+  }
   void reportParseError(Id id, const std::string& what) {
     auto errstr = "Error reading primitive with id " + std::to_string(id) + " from file: " + what;
     errors_.push_back(errstr);
-- 
2.43.0


From bb2ae04ff3f22722f283e58d964be0b0ea1f4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 28/74] fix: passing between areas ignored whether they are
 passable

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index bbf181b..28ab26e 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -235,7 +235,7 @@ bool GenericTrafficRules::canPass(const ConstArea& from, const ConstLanelet& to)
 }
 
 bool GenericTrafficRules::canPass(const ConstArea& from, const ConstArea& to) const {
-  if (!canPass(from) && canPass(to)) {
+  if (!canPass(from) || !canPass(to)) {
     return false;
   }
   auto line = determineCommonLine(from, to);
-- 
2.43.0


From d479e4a748ee1a6a31680dc32ba08f75f15ecd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 29/74] fix: speed_limit_mandatory for a participant was
 overruled by the general one

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 28ab26e..7d0d617 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -305,8 +305,10 @@ SpeedLimitInformation GenericTrafficRules::speedLimit(const RegulatoryElementCon
         getMapOrDefault(attributes, AttributeName::SpeedLimit, Attribute(0_kmh)).asVelocity().get_value_or(0_kmh);
     auto limit =
         getOverride(attributes, Attr::SpeedLimit + ":"s, Attr::SpeedLimit + ":"s + participant(), defaultLimit);
-    auto mandatory =
-        getOverride(attributes, Attr::SpeedLimitMandatory, Attr::SpeedLimitMandatory + ":"s + participant(), true);
+    auto defaultMandatory =
+        getMapOrDefault(attributes, Attr::SpeedLimitMandatory, Attribute(true)).asBool().get_value_or(true);
+    auto mandatory = getOverride(attributes, Attr::SpeedLimitMandatory + ":"s,
+                                 Attr::SpeedLimitMandatory + ":"s + participant(), defaultMandatory);
     return {limit, mandatory};
   }
   return getSpeedLimitFromType(attributes, countrySpeedLimits(), participant());
-- 
2.43.0


From a910ced64a9c01299504bc09311b2b417339ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 30/74] fix: documented participants and speed limits of bus
 lanes

---
 lanelet2_traffic_rules/src/GenericTrafficRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 7d0d617..0af2213 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -266,6 +266,8 @@ SpeedLimitInformation getSpeedLimitFromType(const AttributeMap& attributes, cons
   const static SpeedLimitMap SpeedLimitLookup{
       {{Value::Urban, Value::Road}, &CountrySpeedLimits::vehicleUrbanRoad},
       {{Value::Nonurban, Value::Road}, &CountrySpeedLimits::vehicleNonurbanRoad},
+      {{Value::Urban, Value::BusLane}, &CountrySpeedLimits::vehicleUrbanRoad},
+      {{Value::Nonurban, Value::BusLane}, &CountrySpeedLimits::vehicleNonurbanRoad},
       {{Value::Urban, Value::Highway}, &CountrySpeedLimits::vehicleUrbanHighway},
       {{Value::Nonurban, Value::Highway}, &CountrySpeedLimits::vehicleNonurbanHighway},
       {{Value::Urban, Value::PlayStreet}, &CountrySpeedLimits::playStreet},
@@ -333,6 +335,7 @@ Optional<bool> GenericTrafficRules::canPass(const std::string& type, const std::
       {"", {Participants::Vehicle}},
       {Value::Road, {Participants::Vehicle, Participants::Bicycle}},
       {Value::Highway, {Participants::Vehicle}},
+      {Value::BusLane, {Participants::VehicleBus, Participants::VehicleEmergency, Participants::VehicleTaxi}},
       {Value::BicycleLane, {Participants::Bicycle}},
       {Value::PlayStreet, {Participants::Pedestrian, Participants::Bicycle, Participants::Vehicle}},
       {Value::EmergencyLane, {Participants::VehicleEmergency}},
-- 
2.43.0


From 92fd7114b3252a72ed76bb9b55574f986e521b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 31/74] fix: lanelets with another relation could become
 conflicting as well

Conflicts were searched before all successors and lane changes were known, so depending on the order of the
lanelets, two relations existed between the same lanelets.
---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 8d2c606..b503bb8 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -153,12 +153,16 @@ void RoutingGraphBuilder::addEdges(const ConstLanelets& lanelets, const LaneletL
     addFollowingEdges(ll);
     addSidewayEdge(rightToLeft, ll, ll.leftBound(), RelationType::AdjacentLeft);
     addSidewayEdge(leftToRight, ll, ll.rightBound(), RelationType::AdjacentRight);
-    addConflictingEdge(ll, passableLanelets);
   }
 
   // now process the lane changes
   addLaneChangeEdges(rightToLeft, RelationType::Left);
   addLaneChangeEdges(leftToRight, RelationType::Right);
+
+  // lanelets are only conflicting if they have no other relation, so these have to be known by now
+  for (auto const& ll : lanelets) {
+    addConflictingEdge(ll, passableLanelets);
+  }
 }
 
 void RoutingGraphBuilder::addEdges(const ConstAreas& areas, const LaneletLayer& passableLanelets,
@@ -235,7 +239,9 @@ void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const Lanel
     auto maxHeight = participantHeight();
     if ((maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) || (!maxHeight && geometry::overlaps2d(ll, other))) {
       assignCosts(ll, other, RelationType::Conflicting);
-      assignCosts(other, ll, RelationType::Conflicting);
+      if (!hasEdge(other, ll)) {
+        assignCosts(other, ll, RelationType::Conflicting);
+      }
     }
   }
 }
-- 
2.43.0


From 2ba6bdb7639caaf987b1f673a771bb6ed559b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 32/74] fix: routingRelation reported conflicting lanelets
 although told not to

The filter for everything but conflicts was built with 'or' and let all relations pass.
---
 lanelet2_routing/include/lanelet2_routing/internal/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
index 3bdc80a..6520ff2 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/Graph.h
@@ -162,7 +162,7 @@ class Graph {
   }
 
   FilteredGraph withoutConflicting(RoutingCostId routingCostId = 0) const {
-    return getFilteredGraph(routingCostId, allRelations() | ~RelationType::Conflicting);
+    return getFilteredGraph(routingCostId, allRelations() & ~RelationType::Conflicting);
   }
 
   inline bool empty() const noexcept { return laneletOrAreaToVertex_.empty(); }
-- 
2.43.0


From bb2066efa7b6c387ff51cefcf912083950287418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 33/74] fix: no conflicts between the inverted views of
 lanelets that are passable in both directions

A conflict was only reported against lanelets in the orientation they have in the map.
---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 35 +++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index b503bb8..5d2ae09 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -219,22 +219,12 @@ void RoutingGraphBuilder::addSidewayEdge(LaneChangeLaneletsCollector& laneChange
 
 void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const LaneletLayer& passableLanelets) {
   // Conflicting
-  ConstLanelets results = passableLanelets.search(geometry::boundingBox2d(ll));
-  ConstLanelet other;
-  for (auto& result : results) {
-    if (bothWaysLaneletIds_.find(ll.id()) != bothWaysLaneletIds_.end() && result == ll) {
-      other = result.invert();
-      assignCosts(ll, other, RelationType::Conflicting);
-      assignCosts(other, ll, RelationType::Conflicting);
-      continue;
-    }
-    other = result;
-    if (hasEdge(ll, result)) {
-      continue;
-    }
-    auto vertex = graph_->getVertex(other);
-    if (!vertex || result == ll) {
-      continue;
+  auto isBothWays = [this](const ConstLanelet& llt) {
+    return bothWaysLaneletIds_.find(llt.id()) != bothWaysLaneletIds_.end();
+  };
+  auto addIfConflicting = [this, &ll](const ConstLanelet& other) {
+    if (other == ll || hasEdge(ll, other) || !graph_->getVertex(other)) {
+      return;
     }
     auto maxHeight = participantHeight();
     if ((maxHeight && geometry::overlaps3d(ll, other, *maxHeight)) || (!maxHeight && geometry::overlaps2d(ll, other))) {
@@ -243,6 +233,19 @@ void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const Lanel
         assignCosts(other, ll, RelationType::Conflicting);
       }
     }
+  };
+  ConstLanelets results = passableLanelets.search(geometry::boundingBox2d(ll));
+  for (auto& result : results) {
+    if (isBothWays(ll) && result == ll) {
+      auto other = result.invert();
+      assignCosts(ll, other, RelationType::Conflicting);
+      assignCosts(other, ll, RelationType::Conflicting);
+      continue;
+    }
+    addIfConflicting(result);
+    if (isBothWays(result)) {
+      addIfConflicting(result.invert());
+    }
   }
 }
 
-- 
2.43.0


From a8aa295895841088ca8325bbcf4b4193a81c75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 34/74] fix: areas did not know the lanelets they are in
 conflict with

Conflicts between lanelets and areas were only added from the lanelet in its original orientation to the area.
---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index 5d2ae09..c53628e 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -301,6 +301,11 @@ void RoutingGraphBuilder::addAreaEdge(const ConstArea& area, const LaneletLayer&
     if ((maxHeight && geometry::overlaps3d(area, candidate, *maxHeight)) ||
         (!maxHeight && geometry::overlaps2d(area, candidate))) {
       assignCosts(candidate, area, RelationType::Conflicting);
+      assignCosts(area, candidate, RelationType::Conflicting);
+      if (bothWaysLaneletIds_.find(candidate.id()) != bothWaysLaneletIds_.end()) {
+        assignCosts(candidate.invert(), area, RelationType::Conflicting);
+        assignCosts(area, candidate.invert(), RelationType::Conflicting);
+      }
     }
   }
 }
-- 
2.43.0


From 56172f03d0dd586106e8065be71c9dea10045cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 35/74] fix: lane change costs depended on the order in which
 lanelets were visited

Where roads merge or split, lanelets that were already part of another chain of lane changes were missing in the chain
that is passed to the routing costs, so lane changes came out as too short.
---
 .../internal/RoutingGraphBuilder.h            |   3 +-
 lanelet2_routing/src/RoutingGraphBuilder.cpp  | 100 +++++++-----------
 2 files changed, 38 insertions(+), 65 deletions(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
index 92a66d5..ec3b563 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphBuilder.h
@@ -46,7 +46,8 @@ class RoutingGraphBuilder {
   //! Adds the first and last points of a lanelet to the search index
   void addPointsToSearchIndex(const ConstLanelet& ll);
   bool hasEdge(const ConstLanelet& from, const ConstLanelet& to);
-  void assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation);
+  //! Adds the lane change between the first lanelets. The others are the ones that are left to complete it.
+  void assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos, const RelationType& relation);
 
   /** @brief Assigns routing costs of each routing cost module to a relation between two lanelets
    *  @param from Start lanelet
diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index c53628e..befd0d3 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -19,69 +19,49 @@ inline IdPair orderedIdPair(const Id id1, const Id id2) { return (id1 < id2) ? I
 
 //! This class collects lane changable lanelets and combines them to a sequence of adjacent lanechangable lanelets
 class LaneChangeLaneletsCollector {
-  struct LaneChangeInfo {
-    ConstLanelet target;
-    bool visited;
-  };
-  using LaneChangeMap = std::unordered_map<ConstLanelet, LaneChangeInfo>;
+  using LaneChangeMap = std::unordered_map<ConstLanelet, ConstLanelet>;
 
  public:
   using LaneChangeLanelets = std::pair<ConstLanelets, ConstLanelets>;
 
   LaneChangeLaneletsCollector() = default;
   void add(ConstLanelet from, ConstLanelet to) {
-    laneChanges_.emplace(std::move(from), LaneChangeInfo{std::move(to), false});
+    laneChanges_.emplace(std::move(from), std::move(to));
     currPos_ = laneChanges_.begin();
   }
 
-  template <typename Func1, typename Func2>
-  Optional<LaneChangeLanelets> getNextChangeLanelets(Func1&& prev, Func2&& next) {
-    for (; currPos_ != laneChanges_.end() && currPos_->second.visited; ++currPos_) {
-    }
+  //! Returns the next lanelet with a lane change, followed by all lanelets along which it can still be made
+  template <typename Func>
+  Optional<LaneChangeLanelets> getNextChangeLanelets(Func&& next) {
     if (currPos_ == laneChanges_.end()) {
       return {};
     }
-    return getLaneChangeLanelets(currPos_, std::forward<Func1>(prev), std::forward<Func2>(next));
+    return getLaneChangeLanelets(currPos_++, std::forward<Func>(next));
   }
 
  private:
-  template <typename Func1, typename Func2>
-  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& prev, Func2&& next) {
-    iter->second.visited = true;
-    auto followers = getAdjacentLaneChangeLanelets(iter, std::forward<Func2>(next));
-    auto predecessors = getAdjacentLaneChangeLanelets(iter, std::forward<Func1>(prev));
-    std::reverse(predecessors.first.begin(), predecessors.first.end());
-    std::reverse(predecessors.second.begin(), predecessors.second.end());
-    std::pair<ConstLanelets, ConstLanelets> result;
-    result.first = utils::concatenate({predecessors.first, ConstLanelets{iter->first}, followers.first});
-    result.second = utils::concatenate({predecessors.second, ConstLanelets{iter->second.target}, followers.second});
-    return result;
-  }
-
-  template <typename Func1>
-  LaneChangeLanelets getAdjacentLaneChangeLanelets(LaneChangeMap::iterator iter, Func1&& adjacent) {
-    std::pair<ConstLanelets, ConstLanelets> successors;
+  template <typename Func>
+  LaneChangeLanelets getLaneChangeLanelets(LaneChangeMap::const_iterator iter, Func&& next) const {
+    LaneChangeLanelets result;
     while (true) {
-      auto nextSourceLlts = adjacent(iter->first);
-      auto nextTargetLlts = adjacent(iter->second.target);
+      result.first.push_back(iter->first);
+      result.second.push_back(iter->second);
+      auto nextSourceLlts = next(iter->first);
+      auto nextTargetLlts = next(iter->second);
       if (nextSourceLlts.size() != 1 || nextTargetLlts.size() != 1) {
         break;
       }
-      ConstLanelet& nextSourceLlt = nextSourceLlts.front();
-      ConstLanelet& nextTargetLlt = nextTargetLlts.front();
-      iter = laneChanges_.find(nextSourceLlt);
-      if (iter == laneChanges_.end() || iter->second.visited || iter->second.target != nextTargetLlt) {
+      iter = laneChanges_.find(nextSourceLlts.front());
+      if (iter == laneChanges_.end() || iter->second != nextTargetLlts.front() ||
+          std::find(result.first.begin(), result.first.end(), iter->first) != result.first.end()) {
         break;
       }
-      iter->second.visited = true;
-      successors.first.push_back(nextSourceLlt);
-      successors.second.push_back(nextTargetLlt);
     }
-    return successors;
+    return result;
   }
 
   LaneChangeMap laneChanges_;
-  LaneChangeMap::iterator currPos_{laneChanges_.end()};
+  LaneChangeMap::const_iterator currPos_{laneChanges_.end()};
 };
 
 RoutingGraphBuilder::RoutingGraphBuilder(const traffic_rules::TrafficRules& trafficRules,
@@ -250,27 +230,20 @@ void RoutingGraphBuilder::addConflictingEdge(const ConstLanelet& ll, const Lanel
 }
 
 void RoutingGraphBuilder::addLaneChangeEdges(LaneChangeLaneletsCollector& laneChanges, const RelationType& relation) {
-  auto getSuccessors = [this](auto beginEdgeIt, auto endEdgeIt, auto getVertex) {
+  auto next = [this](const ConstLanelet& llt) {
     ConstLanelets nexts;
-    for (; beginEdgeIt != endEdgeIt; ++beginEdgeIt) {
-      auto& edgeInfo = graph_->get()[*beginEdgeIt];
+    auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
+    for (auto it = edges.first; it != edges.second; ++it) {
+      auto& edgeInfo = graph_->get()[*it];
       if (edgeInfo.relation == RelationType::Successor && edgeInfo.costId == 0) {
-        nexts.push_back(graph_->get()[getVertex(*beginEdgeIt, graph_->get())].lanelet());
+        nexts.push_back(graph_->get()[boost::target(*it, graph_->get())].lanelet());
       }
     }
     return nexts;
   };
-  auto next = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::out_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::target(edge, g); });
-  };
-  auto prev = [this, &getSuccessors](const ConstLanelet& llt) {
-    auto edges = boost::in_edges(*graph_->getVertex(llt), graph_->get());
-    return getSuccessors(edges.first, edges.second, [](auto edge, const auto& g) { return boost::source(edge, g); });
-  };
   Optional<LaneChangeLaneletsCollector::LaneChangeLanelets> laneChangeLanelets;
-  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(prev, next))) {
-    assignLaneChangeCosts(std::move(laneChangeLanelets->first), std::move(laneChangeLanelets->second), relation);
+  while (!!(laneChangeLanelets = laneChanges.getNextChangeLanelets(next))) {
+    assignLaneChangeCosts(laneChangeLanelets->first, laneChangeLanelets->second, relation);
   }
 }
 
@@ -352,20 +325,19 @@ bool RoutingGraphBuilder::hasEdge(const ConstLanelet& from, const ConstLanelet&
   return !!graph_->getEdgeInfo(from, to);
 }
 
-void RoutingGraphBuilder::assignLaneChangeCosts(ConstLanelets froms, ConstLanelets tos, const RelationType& relation) {
+void RoutingGraphBuilder::assignLaneChangeCosts(const ConstLanelets& froms, const ConstLanelets& tos,
+                                                const RelationType& relation) {
   assert(relation == RelationType::Left || relation == RelationType::Right);
-  assert(froms.size() == tos.size());
-  for (; !froms.empty(); froms.erase(froms.begin()), tos.erase(tos.begin())) {
-    for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
-      auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
-      if (!std::isfinite(cost)) {
-        // if the costs are infinite, we add an adjacent edge instead
-        auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
-        graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
-        continue;
-      }
-      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
+  assert(!froms.empty() && froms.size() == tos.size());
+  for (RoutingCostId costId = 0; costId < RoutingCostId(routingCosts_.size()); ++costId) {
+    auto cost = routingCosts_[costId]->getCostLaneChange(trafficRules_, froms, tos);
+    if (!std::isfinite(cost)) {
+      // if the costs are infinite, we add an adjacent edge instead
+      auto adjacent = relation == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
+      graph_->addEdge(froms.front(), tos.front(), EdgeInfo{1, costId, adjacent});
+      continue;
     }
+    graph_->addEdge(froms.front(), tos.front(), EdgeInfo{cost, costId, relation});
   }
 }
 
-- 
2.43.0


From 9162239d54ec60fb8ab921db1817fe70a27c9bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 36/74] fix: passing areas counted as a lane change in the
 visit information

---
 .../include/lanelet2_routing/internal/ShortestPath.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
index 9e67370..7ade8cd 100644
--- a/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
+++ b/lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h
@@ -99,7 +99,8 @@ class DijkstraStyleSearch {
       auto& follower = (*map_)[boost::target(e, g)];
       follower.length = predecessor.length + 1;
       follower.predecessor = boost::source(e, g);
-      follower.numLaneChanges = predecessor.numLaneChanges + (g[e].relation != RelationType::Successor);
+      auto isLaneChange = g[e].relation != RelationType::Successor && g[e].relation != RelationType::Area;
+      follower.numLaneChanges = predecessor.numLaneChanges + size_t(isLaneChange);
     }
 
    private:
-- 
2.43.0


From b8998d6707b00fe55e52ce49be9ffa219d5b61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 37/74] fix: Route::leftRelations/rightRelations return nothing
 for lanelets that are not part of the route

---
 lanelet2_routing/src/Route.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 380affd..899db20 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -267,6 +267,9 @@ Optional<LaneletRelation> Route::leftRelation(const ConstLanelet& lanelet) const
 LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
@@ -288,6 +291,9 @@ Optional<LaneletRelation> Route::rightRelation(const ConstLanelet& lanelet) cons
 LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   LaneletRelations result;
   auto next = graph_->getVertex(lanelet);
+  if (!next) {
+    return result;
+  }
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-- 
2.43.0


From c426712d916fcefe7373762e9b16ce9414a8dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 38/74] fix: remaining path of a route with a single lanelet is
 that lanelet

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 899db20..83ad532 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -142,7 +142,7 @@ LaneletPath Route::remainingShortestPath(const ConstLanelet& ll) const {
   if (iter == shortestPath_.end()) {
     return LaneletPath{};
   }
-  if (!shortestPath_.empty() && shortestPath_.front() == shortestPath_.back()) {  // circular
+  if (shortestPath_.size() > 1 && shortestPath_.front() == shortestPath_.back()) {  // circular
     ConstLanelets llts{shortestPath_.begin(), shortestPath_.end()};
     llts.pop_back();
     std::rotate(llts.begin(), llts.begin() + std::distance(shortestPath_.begin(), iter), llts.end());
-- 
2.43.0


From c2d7fd4c2049e7e6d068c2c371b6e6941f2722c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 39/74] fix: Route::checkValidity reports relations that do not
 match, not those that do

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index 83ad532..e906a90 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -359,7 +359,7 @@ bool Route::contains(const ConstLanelet& lanelet) const { return !!graph_->getVe
 
 template <RelationType Expect>
 void checkRelationIs(Route::Errors& errors, Id source, Id dest, RelationType sourceRel, RelationType targetRel) {
-  if ((Expect & targetRel) != RelationType::None) {
+  if ((Expect & targetRel) == RelationType::None) {
     auto sourceStr = std::to_string(source);
     auto destStr = std::to_string(dest);
     errors.emplace_back("Lanelet " + sourceStr + " is " + relationToString(sourceRel) + "of/with " + destStr +
-- 
2.43.0


From 20d7927484c5c1afd1935f1cd3fea7299d8e66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 40/74] fix: neighbouring lane of a route is not lost because
 of the lane beyond it

---
 lanelet2_routing/src/RouteBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 2634693..1ebcfd0 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -112,7 +112,8 @@ class VisitedLaneletGraph {
       }
       if (relation == RelationType::Successor && vertex->second->numFollowers > 0) {
         vertex->second->numFollowers--;
-      } else if (vertex->second->numLaneChangesOut > 0) {  // implies left or right
+      } else if (relation != RelationType::Successor && has(*routeLanelets_, v.first) &&
+                 vertex->second->numLaneChangesOut > 0) {  // lane changes only count if they lead to the route
         vertex->second->numLaneChangesOut--;
       }
     });
-- 
2.43.0


From a6addcc5c0b38806f9938517d600bd2072898976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 41/74] fix: routes contain no lanelets that are disconnected
 from the start or the destination

---
 lanelet2_routing/src/RouteBuilder.cpp | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 1ebcfd0..38e65da 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -73,6 +73,17 @@ class VisitedLaneletGraph {
     }
   }
 
+  //! Prunes all lanelets that are not on a way between two lanelets of this graph
+  void pruneNotBetween(LaneletVertexId from, LaneletVertexId to, const NextToRouteGraph& g) {
+    const auto behindFrom = getConnected<false>(from, to, g);
+    const auto beforeTo = getConnected<true>(to, to, g);
+    for (auto& vertex : visited_) {
+      if (!has(behindFrom, vertex.first) || !has(beforeTo, vertex.first)) {
+        vertex.second.reset();
+      }
+    }
+  }
+
   //! Clears the graph
   void clear() {
     for (auto& vertex : visited_) {
@@ -118,6 +129,26 @@ class VisitedLaneletGraph {
       }
     });
   }
+
+  //! Finds all valid lanelets that are connected with start by valid lanelets. The end is allowed to be a leaf.
+  template <bool Backwards>
+  RouteLanelets getConnected(LaneletVertexId start, LaneletVertexId end, const NextToRouteGraph& g) const {
+    RouteLanelets result{start};
+    LaneletVertexIds open{start};
+    while (!open.empty()) {
+      auto edges = GetEdges<Backwards>{}(open.back(), g);
+      open.pop_back();
+      std::for_each(edges.first, edges.second, [&](NextToRouteGraph::edge_descriptor e) {
+        LaneletVertexId next = GetTarget<Backwards>{}(e, g);
+        auto vertex = visited_.find(next);
+        auto isValid = vertex != visited_.end() && !!vertex->second && (next == end || !vertex->second->isLeaf());
+        if (isValid && result.insert(next).second) {
+          open.push_back(next);
+        }
+      });
+    }
+    return result;
+  }
   VisitedCounters visited_;
   const RouteLanelets* routeLanelets_{};
 };
@@ -403,6 +434,9 @@ class RouteUnderConstruction {
     pathOutOfRouteFinder_.forEachVertexOutOfRoute(
         laneletVisitor_, [&](auto& vertex) { laneletVisitor_.remove(vertex, nextToRouteGraph_); });
 
+    // remove lanelets that were only connected to the route by these lanelets or that do not lead to end_
+    laneletVisitor_.pruneNotBetween(begin_, end_, nextToRouteGraph_);
+
     // add the new vertices to the laneletsOnTheRoute_ and determine if we made progress.
     bool progress = false;
     laneletVisitor_.forAllValidLanelets([&](auto lltId) { progress |= laneletsOnRoute_.insert(lltId.first).second; });
-- 
2.43.0


From 3317793139fbd576ddc5faef8833c55681f2a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 42/74] fix: routes that pass their destination on the way
 include the lanelets beside the part behind it

---
 lanelet2_routing/src/RouteBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 38e65da..41bfbce 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -202,7 +202,11 @@ RouteLanelets lastLanelets(const std::vector<LaneletVertexId>& initialRoute, con
   if (initialRoute.empty() || initialRoute.front() == initialRoute.back()) {
     return {};
   }
-  return getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  auto lanelets = getLeftAndRightLanelets(initialRoute.back(), originalGraph);
+  // if the route goes on after its first visit to the destination, it does not end there
+  auto leaves = std::adjacent_find(initialRoute.begin(), initialRoute.end(),
+                                   [&](auto from, auto to) { return has(lanelets, from) && !has(lanelets, to); });
+  return leaves == initialRoute.end() ? lanelets : RouteLanelets{};
 }
 
 //! The visited lanelet graph initially also contains lanelets that are always conflicting with the route, but the route
-- 
2.43.0


From 213fc870eb98f930b57da4c18e2f1046506989b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 43/74] fix: out of bounds write for lanelets that conflict
 with a route but do not lead to its destination

---
 lanelet2_routing/src/RouteBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_routing/src/RouteBuilder.cpp b/lanelet2_routing/src/RouteBuilder.cpp
index 41bfbce..a62f420 100644
--- a/lanelet2_routing/src/RouteBuilder.cpp
+++ b/lanelet2_routing/src/RouteBuilder.cpp
@@ -243,6 +243,9 @@ class PathsOutOfRouteFinder {
       if (this->neverConflictsWithRoute(path) || this->alwaysConflictsWithRoute(path)) {
         for (auto& vertex : path) {
           auto iter = std::find(newConflictingVertices_.begin(), newConflictingVertices_.end(), vertex);
+          if (iter == newConflictingVertices_.end()) {
+            continue;  // conflicts with the route, but does not lead to the destination
+          }
           permittedVertices_[std::distance(newConflictingVertices_.begin(), iter)] = true;
         }
       }
-- 
2.43.0


From 2ec5379b34a82854ba270f614ac9586fb7939067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 44/74] fix: debug map of a route contains all relations

---
 lanelet2_routing/src/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index e906a90..ab4ca6e 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -59,7 +59,7 @@ void addRelation(std::map<DebugEdge, LineString3d>& edgeMap, std::map<Id, Point2
     if (toPointIt == vertexMap.end()) {
       toPointIt = createAndAddPoint(vertexMap, to);
     }
-    LineString2d lineString;
+    LineString2d lineString(utils::getId());
     lineString.push_back(fromPointIt->second);
     lineString.push_back(toPointIt->second);
     lineStringMapIt = edgeMap.emplace(orderedPair, LineString3d(lineString)).first;
-- 
2.43.0


From c2840b5b98938582e91f8d733d4cf864fbe6e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 45/74] fix: debug map of a route contains lanelets without
 relations

---
 lanelet2_routing/src/Route.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index ab4ca6e..b51bddb 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -208,6 +208,7 @@ LaneletMapPtr Route::getDebugLaneletMap() const {
     addRelation(edgeMap, vertexMap, g[boost::source(e, g)], g[boost::target(e, g)], g[e].relation);
   };
   for (auto v : graph_->get().vertex_set()) {
+    createAndAddPoint(vertexMap, g[v]);
     auto outEdges = boost::out_edges(v, graph_->get());
     std::for_each(outEdges.first, outEdges.second, addEdge);
   }
-- 
2.43.0


From bbda7127f0d3f92dbb7b6db0211adaf0dbc66c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 46/74] fix: neighbour queries of routing graph and route
 terminate if neighbours form a closed ring

---
 lanelet2_routing/src/Route.cpp        | 10 +++-
 lanelet2_routing/src/RoutingGraph.cpp | 77 ++++++++++++++-------------
 2 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/lanelet2_routing/src/Route.cpp b/lanelet2_routing/src/Route.cpp
index b51bddb..3808def 100644
--- a/lanelet2_routing/src/Route.cpp
+++ b/lanelet2_routing/src/Route.cpp
@@ -119,6 +119,12 @@ Optional<LaneletRelation> getSingleRelation(RouteGraph::Vertex v, const Filtered
   return LaneletRelation{g[boost::target(*outEdges.first, g)].lanelet, g[*outEdges.first].relation};
 }
 
+// Neighbours can form a closed ring (e.g. around a common point)
+bool isNewNeighbour(const LaneletRelations& visited, const ConstLanelet& start, const ConstLanelet& next) {
+  return next != start &&
+         std::none_of(visited.begin(), visited.end(), [&](const auto& rel) { return rel.lanelet == next; });
+}
+
 template <bool Backwards = false>
 std::pair<Optional<RouteGraph::Vertex>, RelationType> getNextVertex(RouteGraph::Vertex v, const FilteredRouteGraph& g) {
   auto out = internal::GetEdges<Backwards>{}(v, g);
@@ -274,7 +280,7 @@ LaneletRelations Route::leftRelations(const ConstLanelet& lanelet) const {
   RelationType type;
   auto g = graph_->somehowLeft();
   std::tie(next, type) = getNextVertex(*next, g);
-  while (!!next) {
+  while (!!next && isNewNeighbour(result, lanelet, g[*next].lanelet)) {
     result.emplace_back(LaneletRelation{g[*next].lanelet, type});
     std::tie(next, type) = getNextVertex(*next, g);
   }
@@ -298,7 +304,7 @@ LaneletRelations Route::rightRelations(const ConstLanelet& lanelet) const {
   RelationType type;
   auto g = graph_->somehowRight();
   std::tie(next, type) = getNextVertex(*next, g);
-  while (!!next) {
+  while (!!next && isNewNeighbour(result, lanelet, g[*next].lanelet)) {
     result.emplace_back(LaneletRelation{g[*next].lanelet, type});
     std::tie(next, type) = getNextVertex(*next, g);
   }
diff --git a/lanelet2_routing/src/RoutingGraph.cpp b/lanelet2_routing/src/RoutingGraph.cpp
index 057db0b..de78546 100644
--- a/lanelet2_routing/src/RoutingGraph.cpp
+++ b/lanelet2_routing/src/RoutingGraph.cpp
@@ -151,12 +151,41 @@ template <typename Func>
 ConstLanelets getUntilEnd(const ConstLanelet& start, Func next) {
   auto result = reservedVector<ConstLanelets>(3);
   Optional<ConstLanelet> current = start;
-  while (!!(current = next(*current))) {
+  // neighbours can form a closed ring (e.g. around a common point), so never visit the same lanelet again
+  while (!!(current = next(*current)) && *current != start && !utils::contains(result, *current)) {
     result.emplace_back(*current);
   }
   return result;
 }
 
+// Follows neighbours of one side until there is none left or until a ring of neighbours is closed
+template <typename NextFunc, typename AdjacentFunc>
+LaneletRelations getRelationsUntilEnd(const ConstLanelet& start, NextFunc next, RelationType nextType,
+                                      AdjacentFunc adjacent, RelationType adjacentType) {
+  auto result = reservedVector<LaneletRelations>(3);
+  ConstLanelet current = start;
+  auto add = [&](const ConstLanelets& lanelets, RelationType type) {
+    for (const auto& llt : lanelets) {
+      if (llt == start || utils::anyOf(result, [&](const auto& rel) { return rel.lanelet == llt; })) {
+        return false;
+      }
+      result.emplace_back(LaneletRelation{llt, type});
+      current = llt;
+    }
+    return true;
+  };
+  while (true) {
+    const ConstLanelets nextLanelets{next(current)};
+    if (!add(nextLanelets, nextType)) {
+      return result;
+    }
+    const ConstLanelets adjacentLanelets{adjacent(current)};
+    if (!add(adjacentLanelets, adjacentType) || (nextLanelets.empty() && adjacentLanelets.empty())) {
+      return result;
+    }
+  }
+}
+
 ConstLaneletOrAreas getAllEdgesFromGraph(const RoutingGraphGraph& graph, const FilteredRoutingGraph& subgraph,
                                          const ConstLaneletOrArea& laneletOrArea, bool edgesOut) {
   ConstLaneletOrAreas result;
@@ -485,7 +514,11 @@ ConstLanelets RoutingGraph::besides(const ConstLanelet& lanelet, RoutingCostId r
   result.reserve(left.size() + right.size() + 1);
   result.insert(std::end(result), move(left.rbegin()), move(left.rend()));
   result.push_back(lanelet);
-  result.insert(std::end(result), move(std::begin(right)), move(std::end(right)));
+  for (auto& llt : right) {
+    if (!utils::contains(result, llt)) {  // already there if the neighbours form a closed ring
+      result.push_back(std::move(llt));
+    }
+  }
   return result;
 }
 
@@ -520,23 +553,9 @@ ConstLanelets RoutingGraph::adjacentLefts(const ConstLanelet& lanelet, RoutingCo
 }
 
 LaneletRelations RoutingGraph::leftRelations(const ConstLanelet& lanelet, RoutingCostId routingCostId) const {
-  bool leftReached{false};
-  ConstLanelet current = lanelet;
-  LaneletRelations result;
-  while (!leftReached) {
-    const ConstLanelets leftOf{lefts(current, routingCostId)};
-    for (auto const& it : leftOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::Left});
-      current = it;
-    }
-    const ConstLanelets adjacentLeftOf{adjacentLefts(current, routingCostId)};
-    for (auto const& it : adjacentLeftOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::AdjacentLeft});
-      current = it;
-    }
-    leftReached = (leftOf.empty() && adjacentLeftOf.empty());
-  }
-  return result;
+  return getRelationsUntilEnd(
+      lanelet, [&](const ConstLanelet& llt) { return lefts(llt, routingCostId); }, RelationType::Left,
+      [&](const ConstLanelet& llt) { return adjacentLefts(llt, routingCostId); }, RelationType::AdjacentLeft);
 }
 
 ConstLanelets RoutingGraph::rights(const ConstLanelet& lanelet, RoutingCostId routingCostId) const {
@@ -548,23 +567,9 @@ ConstLanelets RoutingGraph::adjacentRights(const ConstLanelet& lanelet, RoutingC
 }
 
 LaneletRelations RoutingGraph::rightRelations(const ConstLanelet& lanelet, RoutingCostId routingCostId) const {
-  bool rightReached{false};
-  ConstLanelet current = lanelet;
-  auto result = reservedVector<LaneletRelations>(3);
-  while (!rightReached) {
-    const ConstLanelets rightOf{rights(current, routingCostId)};
-    for (auto const& it : rightOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::Right});
-      current = it;
-    }
-    const ConstLanelets adjacentRightOf{adjacentRights(current, routingCostId)};
-    for (auto const& it : adjacentRightOf) {
-      result.emplace_back(LaneletRelation{it, RelationType::AdjacentRight});
-      current = it;
-    }
-    rightReached = (rightOf.empty() && adjacentRightOf.empty());
-  }
-  return result;
+  return getRelationsUntilEnd(
+      lanelet, [&](const ConstLanelet& llt) { return rights(llt, routingCostId); }, RelationType::Right,
+      [&](const ConstLanelet& llt) { return adjacentRights(llt, routingCostId); }, RelationType::AdjacentRight);
 }
 
 ConstLaneletOrAreas RoutingGraph::conflicting(const ConstLaneletOrArea& laneletOrArea) const {
-- 
2.43.0


From d36917d703a0bb92d29fe5fa01ce0e9d30ad9935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 47/74] fix: routing graph of a map with lanelets that have a
 bound without points

Building the graph read front() and back() of empty bounds, which crashed e.g.
the validation of a damaged file in which all points of a way are missing.
---
 lanelet2_routing/src/RoutingGraphBuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lanelet2_routing/src/RoutingGraphBuilder.cpp b/lanelet2_routing/src/RoutingGraphBuilder.cpp
index befd0d3..6b49c2c 100644
--- a/lanelet2_routing/src/RoutingGraphBuilder.cpp
+++ b/lanelet2_routing/src/RoutingGraphBuilder.cpp
@@ -154,6 +154,9 @@ void RoutingGraphBuilder::addEdges(const ConstAreas& areas, const LaneletLayer&
 }
 
 void RoutingGraphBuilder::addFollowingEdges(const ConstLanelet& ll) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return;
+  }
   auto endPointsLanelets =
       pointsToLanelets_.equal_range(orderedIdPair(ll.leftBound().back().id(), ll.rightBound().back().id()));
   // Following
@@ -181,6 +184,9 @@ void RoutingGraphBuilder::addFollowingEdges(const ConstLanelet& ll) {
 
 void RoutingGraphBuilder::addSidewayEdge(LaneChangeLaneletsCollector& laneChangeLanelets, const ConstLanelet& ll,
                                          const ConstLineString3d& bound, const RelationType& relation) {
+  if (bound.empty()) {
+    return;
+  }
   auto directlySideway = [&relation, &ll](const ConstLanelet& sideLl) {
     return relation == RelationType::AdjacentLeft ? geometry::leftOf(sideLl, ll) : geometry::rightOf(sideLl, ll);
   };
@@ -310,6 +316,9 @@ Optional<double> RoutingGraphBuilder::participantHeight() const {
 }
 
 void RoutingGraphBuilder::addPointsToSearchIndex(const ConstLanelet& ll) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return;  // has no end points by which it could be found
+  }
   using PointLaneletPair = std::pair<IdPair, ConstLanelet>;
   pointsToLanelets_.insert(
       PointLaneletPair(orderedIdPair(ll.leftBound().front().id(), ll.rightBound().front().id()), ll));
-- 
2.43.0


From 3ef790b24ff5a37f5d607f88b09afaee3a55ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 48/74] fix: validator missed close points below or above
 another point

Only the two points nearest in 2d were considered. If the nearest one is on
another level, a point that really is too close was not reported.
---
 .../src/validators/PointsTooClose.cpp         | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lanelet2_validation/src/validators/PointsTooClose.cpp b/lanelet2_validation/src/validators/PointsTooClose.cpp
index 05d5186..79a6ca0 100644
--- a/lanelet2_validation/src/validators/PointsTooClose.cpp
+++ b/lanelet2_validation/src/validators/PointsTooClose.cpp
@@ -8,19 +8,22 @@ namespace lanelet {
 namespace validation {
 namespace {
 RegisterMapValidator<PointsTooCloseChecker> reg;
+constexpr double MinDistance = 0.05;
 }  // namespace
 
 Issues PointsTooCloseChecker::operator()(const lanelet::LaneletMap& map) {
   Issues issues;
   for (const auto& p : map.pointLayer) {
-    auto nearest = map.pointLayer.nearest(utils::to2D(p).basicPoint(), 2);
-    if (nearest.size() == 2) {
-      auto& next = nearest[0] == p ? nearest[1] : nearest[0];
-      if (geometry::distance(p, next) < 0.05) {
-        issues.emplace_back(
-            Severity::Warning, Primitive::Point, p.id(),
-            "Point is very close to point " + std::to_string(next.id()) + ". This can lead to defects in the map");
-      }
+    // the closest point in 2d can be on another level, so all points in the vicinity have to be considered
+    const BasicPoint2d pos = utils::to2D(p).basicPoint();
+    const BasicPoint2d margin(MinDistance, MinDistance);
+    auto next = map.pointLayer.searchUntil(BoundingBox2d(pos - margin, pos + margin), [&p](auto& /*box*/, auto& other) {
+      return other != p && geometry::distance(p, other) < MinDistance;
+    });
+    if (!!next) {
+      issues.emplace_back(
+          Severity::Warning, Primitive::Point, p.id(),
+          "Point is very close to point " + std::to_string(next->id()) + ". This can lead to defects in the map");
     }
   }
   return issues;
-- 
2.43.0


From 3478110395f0e15eab382bca8a8cdb9efaf4c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 49/74] fix: tests for neighbouring areas read end points of
 bounds without points

follows() between lanelets already considers empty bounds, the functions for
areas dereferenced their first and last point.
---
 .../include/lanelet2_core/geometry/impl/Area.h  | 17 ++++++++++++++---
 .../src/GenericTrafficRules.cpp                 |  5 ++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h b/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h
index 0edece9..31016cb 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/Area.h
@@ -66,10 +66,14 @@ inline bool leftOf(const ConstLanelet& right, const ConstArea& left) {
 inline bool rightOf(const ConstLanelet& left, const ConstArea& area) { return leftOf(left.invert(), area); }
 
 inline bool follows(const ConstLanelet& prev, const ConstArea& next) {
+  if (prev.leftBound().empty() || prev.rightBound().empty()) {
+    return false;
+  }
   auto outer = next.outerBound();
   return utils::anyOf(outer,
                       [p1 = prev.leftBound().back(), p2 = prev.rightBound().back()](const ConstLineString3d& ls) {
-                        return (ls.front() == p1 && ls.back() == p2) || (ls.front() == p2 && ls.back() == p1);
+                        return !ls.empty() &&
+                               ((ls.front() == p1 && ls.back() == p2) || (ls.front() == p2 && ls.back() == p1));
                       });
 }
 
@@ -90,8 +94,11 @@ inline bool adjacent(const ConstArea& area1, const ConstArea& area2) {
 }
 
 inline Optional<ConstLineString3d> determineCommonLinePreceding(const ConstLanelet& ll, const ConstArea& ar) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return {};
+  }
   return utils::findIf(ar.outerBound(), [p1 = ll.leftBound().back(), p2 = ll.rightBound().back()](auto& boundLs) {
-    return (boundLs.back() == p1 && boundLs.front() == p2);
+    return !boundLs.empty() && boundLs.back() == p1 && boundLs.front() == p2;
   });
 }
 
@@ -101,9 +108,13 @@ inline Optional<ConstLineString3d> determineCommonLineFollowing(const ConstArea&
 
 inline Optional<ConstLineString3d> determineCommonLineFollowingOrPreceding(const ConstArea& ar,
                                                                            const ConstLanelet& ll) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return {};
+  }
   return utils::findIf(ar.outerBound(), [p1 = ll.leftBound().front(), p2 = ll.rightBound().front(),
                                          p3 = ll.leftBound().back(), p4 = ll.rightBound().back()](auto& boundLs) {
-    return ((boundLs.back() == p2 && boundLs.front() == p1) || (boundLs.back() == p3 && boundLs.front() == p4));
+    return !boundLs.empty() &&
+           ((boundLs.back() == p2 && boundLs.front() == p1) || (boundLs.back() == p3 && boundLs.front() == p4));
   });
 }
 
diff --git a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
index 0af2213..e15ca04 100644
--- a/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
+++ b/lanelet2_traffic_rules/src/GenericTrafficRules.cpp
@@ -189,8 +189,11 @@ bool GenericTrafficRules::canPass(const ConstLanelet& from, const ConstLanelet&
 }
 
 Optional<ConstLineString3d> determineCommonLine(const ConstLanelet& ll, const ConstArea& ar) {
+  if (ll.leftBound().empty() || ll.rightBound().empty()) {
+    return {};
+  }
   return utils::findIf(ar.outerBound(), [p1 = ll.leftBound().back(), p2 = ll.rightBound().back()](auto& boundLs) {
-    return (boundLs.back() == p1 && boundLs.front() == p2);
+    return !boundLs.empty() && boundLs.back() == p1 && boundLs.front() == p2;
   });
 }
 Optional<ConstLineString3d> determineCommonLine(const ConstArea& ar1, const ConstArea& ar2) {
-- 
2.43.0


From ef5742f8954c3a6f0caa414793622ae521c57eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 50/74] fix: python: reference to an element of a linestring
 dangled

---
 lanelet2_python/python_api/core.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 36eab12..2cc3395 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -347,7 +347,8 @@ class IsConstLineString : public def_visitor<IsConstLineString<LsT, InternalRef>
   }
   template <bool InternalRefVal, typename ClassT>
   std::enable_if_t<InternalRefVal> addGetitem(ClassT& c) const {
-    c.def("__getitem__", wrappers::getItem<LsT>, return_internal_reference<>());
+    // an internal reference would dangle as soon as points are added to or removed from the linestring
+    c.def("__getitem__", wrappers::getItem<LsT>, return_value_policy<return_by_value>());
   }
   template <bool InternalRefVal, typename ClassT>
   std::enable_if_t<!InternalRefVal> addGetitem(ClassT& c) const {
@@ -375,7 +376,8 @@ class IsLineString : public def_visitor<IsLineString<LsT>> {
   }
   template <typename ClassT>
   void addGetitem(ClassT& c) const {
-    c.def("__getitem__", wrappers::getItem<LsT>, return_internal_reference<>());
+    // an internal reference would dangle as soon as points are added to or removed from the linestring
+    c.def("__getitem__", wrappers::getItem<LsT>, return_value_policy<return_by_value>());
   }
 };
 
-- 
2.43.0


From ddb82e19188f711688fc0fbdade75911e4fe7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 51/74] fix: python: SpeedLimit() created a TrafficSign

---
 lanelet2_python/python_api/core.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 2cc3395..7b55fa3 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1384,10 +1384,13 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   implicitly_convertible<std::shared_ptr<SpeedLimit>, RegulatoryElementPtr>();
 
+  auto makeSpeedLimit =
+      static_cast<SpeedLimit::Ptr (*)(Id, const AttributeMap&, const TrafficSignsWithType&, const TrafficSignsWithType&,
+                                      const LineStrings3d&, const LineStrings3d&)>(&SpeedLimit::make);
   class_<SpeedLimit, boost::noncopyable, std::shared_ptr<SpeedLimit>, bases<TrafficSign>>(  // NOLINT
       "SpeedLimit", "A speed limit regulatory element. This is a special case of a traffic sign regulatory element.",
       no_init)
-      .def("__init__", make_constructor(&TrafficSign::make, default_call_policies(),
+      .def("__init__", make_constructor(makeSpeedLimit, default_call_policies(),
                                         (arg("id"), arg("attributes"), arg("trafficSigns"),
                                          arg("cancellingTrafficSigns") = TrafficSignsWithType{},
                                          arg("refLines") = LineStrings3d(), arg("cancelLines") = LineStrings3d())))
-- 
2.43.0


From 104d623035d0905dcbe9a2c198c97545bf834ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 52/74] fix: python: BasicPoint2d() was uninitialized

---
 lanelet2_python/python_api/core.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 7b55fa3..2a0a83e 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -503,7 +503,6 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__repr__", &ReprWrapper::operator(), "Returns the string representation of this object");
 
   class_<BasicPoint2d>("BasicPoint2d", "A simple 2D point", init<double, double>((arg("x") = 0., arg("y") = 0.)))
-      .def(init<>("BasicPoint2d()"))
       .add_property("x", getXWrapper<BasicPoint2d>, setXWrapper<BasicPoint2d>, "x coordinate")
       .add_property("y", getYWrapper<BasicPoint2d>, setYWrapper<BasicPoint2d>, "y coordinate")
       .def("__add__", addWrapper<BasicPoint2d>)
-- 
2.43.0


From 018959973142c95a22e8d5d9354d47493ac4fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 53/74] fix: python: TrafficSignsWithType.trafficSigns raised a
 TypeError

---
 lanelet2_python/python_api/core.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 2a0a83e..b0d808d 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1329,7 +1329,9 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
              return std::make_shared<TrafficSignsWithType>(TrafficSignsWithType{std::move(ls), std::move(type)});
            }),
            "Construct from a Linestring/Polygon with an explicit type")
-      .def_readwrite("trafficSigns", &TrafficSignsWithType::trafficSigns)
+      .add_property("trafficSigns",
+                    make_getter(&TrafficSignsWithType::trafficSigns, return_value_policy<return_by_value>()),
+                    make_setter(&TrafficSignsWithType::trafficSigns))
       .def_readwrite("type", &TrafficSignsWithType::type);
 
   class_<TrafficSign, boost::noncopyable, std::shared_ptr<TrafficSign>, bases<RegulatoryElement>>(
-- 
2.43.0


From fc93425c22cebc2c8a83d17c18eecf6bf57840c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 54/74] fix: python: inner bounds of an area could be changed
 behind its back

---
 lanelet2_python/python_api/core.cpp | 44 ++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index b0d808d..b8f0afe 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -484,6 +484,36 @@ LaneletSubmapPtr createSubmapWrapper(const PrimT& prim) {
   return utils::createSubmap(prim);
 }
 
+// List-like view on the holes of an area. Modifications have to go through the area, because it caches the polygons of
+// its inner bounds.
+class AreaInnerBounds {
+ public:
+  explicit AreaInnerBounds(Area area) : area_{std::move(area)} {}
+  size_t size() { return bounds().size(); }
+  LineStrings3d get(int64_t index) { return wrappers::getItem(bounds(), index); }
+  void set(int64_t index, const LineStrings3d& hole) {
+    modify([&](InnerBounds& bounds) { wrappers::setItem(bounds, index, hole); });
+  }
+  void del(int64_t index) {
+    modify([&](InnerBounds& bounds) { wrappers::delItem(bounds, index); });
+  }
+  void append(const LineStrings3d& hole) {
+    modify([&](InnerBounds& bounds) { bounds.push_back(hole); });
+  }
+  object iter() { return list(bounds()).attr("__iter__")(); }
+  std::string repr() { return lanelet::python::repr(list(bounds())); }
+
+ private:
+  const InnerBounds& bounds() { return area_.innerBounds(); }
+  template <typename Func>
+  void modify(Func&& func) {
+    InnerBounds modified = bounds();
+    func(modified);
+    area_.setInnerBounds(modified);
+  }
+  Area area_;
+};
+
 template <typename T>
 object optionalToObject(const Optional<T>& v) {
   return v ? object(*v) : object();
@@ -1141,6 +1171,15 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__getitem__", wrappers::getItem<InnerBounds>, return_value_policy<return_by_value>())
       .def("__repr__", +[](const InnerBounds& b) { return repr(list(b)); });
 
+  class_<AreaInnerBounds>("AreaInnerBounds", "A list-like view on the inner boundaries of an Area", no_init)
+      .def("__setitem__", &AreaInnerBounds::set)
+      .def("__delitem__", &AreaInnerBounds::del)
+      .def("append", &AreaInnerBounds::append, "Appends a new hole", arg("hole"))
+      .def("__iter__", &AreaInnerBounds::iter)
+      .def("__len__", &AreaInnerBounds::size, "Number of holes")
+      .def("__getitem__", &AreaInnerBounds::get)
+      .def("__repr__", &AreaInnerBounds::repr);
+
   class_<ConstArea>(
       "ConstArea",
       "Represents an immutable area, potentially with holes, in the map. It is composed of a list of linestrings "
@@ -1181,10 +1220,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
           "The outer boundary, a list of clockwise oriented linestrings")
       .add_property(
           "innerBounds",
-          make_function(
-              // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
-              +[](Area& self) -> InnerBounds& { return const_cast<InnerBounds&>(self.innerBounds()); },
-              return_internal_reference<>()),
+          +[](Area& self) { return AreaInnerBounds(self); },
           +[](Area& self, const InnerBounds& lss) { self.setInnerBounds(lss); },
           "The inner boundaries (holes), a list of a list of counter-clockwise oriented linestrings")
       .add_property(
-- 
2.43.0


From 6c057ab95f7c7c5401c8349bcde3f4c919ea3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 55/74] fix: python: elements of the inner bounds of a
 ConstArea were unusable

---
 lanelet2_python/python_api/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index b8f0afe..da273ad 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1156,7 +1156,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<ConstInnerBounds>("ConstInnerBounds", "An immutable list-like type to hold of inner boundaries of an Area",
                            no_init)
       .def("__iter__", iterator<ConstInnerBounds>())
-      .def("__len__", &InnerBounds::size, "Number of holes")
+      .def("__len__", &ConstInnerBounds::size, "Number of holes")
       .def("__getitem__", wrappers::getItem<ConstInnerBounds>, return_value_policy<return_by_value>())
       .def("__repr__", +[](const ConstInnerBounds& b) { return repr(list(b)); });
 
-- 
2.43.0


From cddadc9b6f2b6278117de85bbad948a507a2de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 56/74] fix: python: dividing points failed

---
 lanelet2_python/python_api/core.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index da273ad..afdf283 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -540,6 +540,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint2d, double>)
       .def("__rmul__", mulWrapper<BasicPoint2d, double>)
       .def("__div__", divWrapper<BasicPoint2d, double>)
+      .def("__truediv__", divWrapper<BasicPoint2d, double>)
       .def(
           "__repr__", +[](BasicPoint2d p) { return makeRepr("BasicPoint2d", p.x(), p.y()); })
       .def(self_ns::str(self_ns::self));
@@ -552,6 +553,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint2d, double>)
       .def("__rmul__", mulWrapper<BasicPoint2d, double>)
       .def("__div__", divWrapper<BasicPoint2d, double>)
+      .def("__truediv__", divWrapper<BasicPoint2d, double>)
       .def(
           "__repr__", +[](Eigen::Vector2d p) { return makeRepr("Vector2d", p.x(), p.y()); })
       .def(self_ns::str(self_ns::self));
@@ -568,6 +570,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("__mul__", mulWrapper<BasicPoint3d, double>)
       .def("__rmul__", mulWrapper<BasicPoint3d, double>)
       .def("__div__", divWrapper<BasicPoint3d, double>)
+      .def("__truediv__", divWrapper<BasicPoint3d, double>)
       .def(
           "__repr__", +[](BasicPoint3d p) { return makeRepr("BasicPoint3d", p.x(), p.y(), p.z()); })
       .def(self_ns::str(self_ns::self));
-- 
2.43.0


From 3e60c1f514b37518127aef7134d3519b1b7989c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 57/74] fix: python: expired lanelets in the parameters of
 regulatory elements

---
 lanelet2_python/python_api/core.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index afdf283..6e866f1 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -197,6 +197,9 @@ struct ConstLaneletOrAreaToObject {
 
 struct ConstWeakLaneletToObject {
   static PyObject* convert(const lanelet::ConstWeakLanelet& v) {
+    if (v.expired()) {
+      return incref(object().ptr());
+    }
     return incref(object(v.lock()).ptr());
   }
 };
-- 
2.43.0


From 0688495764665210c03466c92fd479ebdd4763c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 58/74] fix: python: ConstLaneletWithStopLine was unusable

---
 lanelet2_python/python_api/core.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 6e866f1..4bd3d22 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -727,6 +727,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .fromPython<ConstLineStringsOrPolygons3d>();
 
   ToOptionalConverter().fromPython<LineString3d>();
+  ToOptionalConverter().fromPython<ConstLineString3d>();
 
   to_python_converter<LineStringOrPolygon3d, LineStringOrPolygonToObject>();
   to_python_converter<ConstLineStringOrPolygon3d, ConstLineStringOrPolygonToObject>();
-- 
2.43.0


From 945d72f1f72848eb0ab82e752365f11499486da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 59/74] fix: python: findUsages rejected regulatory elements

---
 lanelet2_python/python_api/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lanelet2_python/python_api/core.cpp b/lanelet2_python/python_api/core.cpp
index 4bd3d22..73038b9 100644
--- a/lanelet2_python/python_api/core.cpp
+++ b/lanelet2_python/python_api/core.cpp
@@ -1448,14 +1448,14 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   wrapLayer<AreaLayer, bases<PrimitiveLayer<Area>>>("AreaLayer")
       .def(
-          "findUsages", +[](AreaLayer& self, RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
+          "findUsages", +[](AreaLayer& self, const RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
           "Find areas with this regulatory element")
       .def(
           "findUsages", +[](AreaLayer& self, ConstLineString3d& ls) { return self.findUsages(ls); }, arg("ls"),
           "Find areas with this linestring");
   wrapLayer<LaneletLayer, bases<PrimitiveLayer<Lanelet>>>("LaneletLayer")
       .def(
-          "findUsages", +[](LaneletLayer& self, RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
+          "findUsages", +[](LaneletLayer& self, const RegulatoryElementPtr& e) { return self.findUsages(e); }, arg("regelem"),
           "Find lanelets with this regualtory element")
       .def(
           "findUsages", +[](LaneletLayer& self, ConstLineString3d& ls) { return self.findUsages(ls); }, arg("ls"),
-- 
2.43.0


From a6fea17f2566f42b5007293ed91c964ff2f90456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 60/74] fix: python: keywords of possiblePaths and reachableSet

---
 lanelet2_python/python_api/routing.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 712c229..b732c05 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -291,18 +291,16 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
       .def("rightRelations", &RoutingGraph::rightRelations, "relations to right lanelets", lltAndRoutingCost)
       .def("conflicting", &RoutingGraph::conflicting, "Conflicting lanelets", arg("lanelet"))
       .def("reachableSet", &RoutingGraph::reachableSet, "set of lanelets that can be reached from a given lanelet",
-           (arg("lanelet"), arg("maxRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = true))
+           (arg("lanelet"), arg("maxRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = true))
       .def("reachableSetTowards", &RoutingGraph::reachableSetTowards, "set of lanelets that can reach a given lanelet",
-           (arg("lanelet"), arg("maxRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = true))
+           (arg("lanelet"), arg("maxRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = true))
       .def("possiblePaths", possPCost, "possible paths from a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePaths", possPParam, "possible paths from a given start lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsTowards", possPToCost,
            "possible paths to a given start lanelet that are 'minRoutingCost'-long",
-           (arg("lanelet"), arg("minRoutingCost"), arg("RoutingCostId") = 0, arg("allowLaneChanges") = false,
-            arg("routingCostId") = 0))
+           (arg("lanelet"), arg("minRoutingCost"), arg("routingCostId") = 0, arg("allowLaneChanges") = false))
       .def("possiblePathsTowards", possPToParam, "possible paths to a given lanelet as configured in parameters",
            (arg("lanelet"), arg("parameters")))
       .def("possiblePathsMinLen", possPLen, "possible routes from a given start lanelet that are 'minLanelets'-long",
-- 
2.43.0


From 72e8be20021d6d440feab08e017368fda474a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 61/74] fix: python: members of LaneletOrAreaVisitInformation
 raised a TypeError

---
 lanelet2_python/python_api/routing.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index b732c05..0abd5db 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -208,10 +208,14 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   class_<LaneletOrAreaVisitInformation>(
       "LaneletOrAreaVisitInformation",
       "Object passed as input for the forEachSuccessorIncludingAreas function of the routing graph")
-      .def_readwrite("laneletOrArea", &LaneletOrAreaVisitInformation::laneletOrArea,
-                     "the currently visited lanelet/area")
-      .def_readwrite("predecessor", &LaneletOrAreaVisitInformation::predecessor,
-                     "the predecessor within the shortest path")
+      .add_property(
+          "laneletOrArea",
+          make_getter(&LaneletOrAreaVisitInformation::laneletOrArea, return_value_policy<return_by_value>()),
+          make_setter(&LaneletOrAreaVisitInformation::laneletOrArea), "the currently visited lanelet/area")
+      .add_property("predecessor",
+                    make_getter(&LaneletOrAreaVisitInformation::predecessor, return_value_policy<return_by_value>()),
+                    make_setter(&LaneletOrAreaVisitInformation::predecessor),
+                    "the predecessor within the shortest path")
       .def_readwrite("length", &LaneletOrAreaVisitInformation::length,
                      "The length of the shortest path to this lanelet (including lanelet")
       .def_readwrite("cost", &LaneletOrAreaVisitInformation::cost, "The cost along the shortest path")
-- 
2.43.0


From 0a02df28de868bdcee087509ed703d2fea80570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 62/74] fix: python: Route.checkValidity() required an argument

---
 lanelet2_python/python_api/routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index 0abd5db..e998e62 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -416,5 +416,5 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
           "similar to forEachSuccessor but instead goes backwards along the routing graph",
           (arg("lanelet"), arg("func")))
       .def("__contains__", &Route::contains, "Checks if a specific lanelet is part of the route", (arg("lanelet")))
-      .def("checkValidity", &Route::checkValidity, "perform sanity check on the route");
+      .def("checkValidity", &Route::checkValidity, "perform sanity check on the route", (arg("throwOnError") = false));
 }
-- 
2.43.0


From 7f5ccdd884799311c260ca1026b6e4ff1b784f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 63/74] fix: python: SpeedLimitInformation could not be created

---
 lanelet2_python/python_api/traffic_rules.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lanelet2_python/python_api/traffic_rules.cpp b/lanelet2_python/python_api/traffic_rules.cpp
index 936f74a..e79599e 100644
--- a/lanelet2_python/python_api/traffic_rules.cpp
+++ b/lanelet2_python/python_api/traffic_rules.cpp
@@ -9,8 +9,9 @@ using namespace boost::python;
 using namespace lanelet;
 using namespace lanelet::traffic_rules;
 
-SpeedLimitInformation makeSpeedLimit(double speedLimitKph, bool isMandatory) {
-  return SpeedLimitInformation{Velocity(speedLimitKph * units::KmH()), isMandatory};
+std::shared_ptr<SpeedLimitInformation> makeSpeedLimit(double speedLimitMps, bool isMandatory) {
+  return std::make_shared<SpeedLimitInformation>(
+      SpeedLimitInformation{Velocity(speedLimitMps * units::MPS()), isMandatory});
 }
 
 double getVelocity(const SpeedLimitInformation& self) { return units::KmHQuantity(self.speedLimit).value(); }
@@ -54,7 +55,8 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
   auto core = import("lanelet2.core");
 
   class_<SpeedLimitInformation>("SpeedLimitInformation", "Current speed limit as returned by a traffic rule object")
-      .def("__init__", makeSpeedLimit, (arg("speedLimitMPS"), arg("isMandatory") = true),
+      .def("__init__",
+           make_constructor(makeSpeedLimit, default_call_policies(), (arg("speedLimitMPS"), arg("isMandatory") = true)),
            "Initialize from speed limit [m/s] and bool if speedlimit is "
            "mandatory")
       .add_property("speedLimit", getVelocity, setVelocity, "velocity in km/h")
-- 
2.43.0


From cc23237ed93fdf98bbd4185af0db540c1c1627d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 64/74] fix: python: Object2d.absoluteHull could not be set

---
 lanelet2_python/python_api/matching.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/matching.cpp b/lanelet2_python/python_api/matching.cpp
index 1fab969..45b3659 100644
--- a/lanelet2_python/python_api/matching.cpp
+++ b/lanelet2_python/python_api/matching.cpp
@@ -134,7 +134,10 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            (arg("objectId") = lanelet::InvalId, arg("pose") = Pose2d::Identity(),
                             arg("absoluteHull") = boost::python::list())))
       .add_property(
-          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; }, &hullFromList,
+          "absoluteHull", +[](Object2d& self) { return self.absoluteHull; },
+          +[](Object2d& self, const boost::python::list& absoluteHull) {
+            self.absoluteHull = hullFromList(absoluteHull);
+          },
           "hull in absolute coordinates (not relative to the object's pose)")
       .def_readwrite("pose", &Object2d::pose)
       .def_readwrite("objectId", &Object2d::objectId);
-- 
2.43.0


From b7b5cf64db877d6e65ebc766c469e3e6865f8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 65/74] fix: python: Origin(lat, lon, alt=...) ignored the
 altitude

---
 lanelet2_python/python_api/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/io.cpp b/lanelet2_python/python_api/io.cpp
index 4651d85..71518de 100644
--- a/lanelet2_python/python_api/io.cpp
+++ b/lanelet2_python/python_api/io.cpp
@@ -70,7 +70,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
                            +[](double lat, double lon, double alt) {
                              return std::make_shared<Origin>(GPSPoint{lat, lon, alt});
                            },
-                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("lon") = 0)))
+                           py::default_call_policies(), (py::arg("lat") = 0., py::arg("lon") = 0., py::arg("alt") = 0.)))
       .def_readwrite("position", &Origin::position);
 
   py::def("load", loadProjectorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()));
-- 
2.43.0


From be9c16d47d821964e8f12db9fc693654f49bd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 66/74] fix: python: loadRobust with keywords

---
 lanelet2_python/python_api/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/python_api/io.cpp b/lanelet2_python/python_api/io.cpp
index 71518de..c412c81 100644
--- a/lanelet2_python/python_api/io.cpp
+++ b/lanelet2_python/python_api/io.cpp
@@ -75,7 +75,7 @@ BOOST_PYTHON_MODULE(PYTHON_API_MODULE_NAME) {  // NOLINT
 
   py::def("load", loadProjectorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()));
   py::def("load", loadWrapper, (py::arg("filename"), py::arg("origin")));
-  py::def("loadRobust", loadWithErrorWrapper, py::arg("filename"),
+  py::def("loadRobust", loadWithErrorWrapper, (py::arg("filename"), py::arg("projector") = DefaultProjector()),
       "Loads a map robustly. Parser errors are returned as second member of "
       "the tuple. If there are errors, the map will be incomplete somewhere.");
 
-- 
2.43.0


From b7cb175827e506a5193b7af12d731fdf9f8dbe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 67/74] fix: python: exceptions of routing costs terminated the
 process

---
 lanelet2_python/python_api/routing.cpp                  | 8 ++++----
 lanelet2_routing/include/lanelet2_routing/RoutingCost.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lanelet2_python/python_api/routing.cpp b/lanelet2_python/python_api/routing.cpp
index e998e62..8b67d08 100644
--- a/lanelet2_python/python_api/routing.cpp
+++ b/lanelet2_python/python_api/routing.cpp
@@ -56,12 +56,12 @@ Optional<T> objectToOptional(const object& o) {
 class RoutingCostBaseWrapper : public lanelet::routing::RoutingCost, public wrapper<lanelet::routing::RoutingCost> {
  public:
   double getCostSucceeding(const traffic_rules::TrafficRules& trafficRules, const ConstLaneletOrArea& from,
-                           const ConstLaneletOrArea& to) const noexcept override {
+                           const ConstLaneletOrArea& to) const override {
     return this->get_override("getCostSucceeding")(boost::ref(trafficRules), from, to);
   }
 
   double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                           const ConstLanelets& to) const noexcept override {
+                           const ConstLanelets& to) const override {
     return this->get_override("getCostLaneChange")(boost::ref(trafficRules), from, to);
   }
 };
@@ -73,7 +73,7 @@ class RoutingCostWrapper : public BaseT, public wrapper<BaseT> {
   RoutingCostWrapper(double laneChangeCost, double minLaneChange) : BaseT(laneChangeCost, minLaneChange) {}
 
   double getCostSucceeding(const traffic_rules::TrafficRules& trafficRules, const ConstLaneletOrArea& from,
-                           const ConstLaneletOrArea& to) const noexcept override {
+                           const ConstLaneletOrArea& to) const override {
     const auto o = this->get_override("getCostSucceeding");
     if (o) {
       return o(boost::ref(trafficRules), from, to);
@@ -87,7 +87,7 @@ class RoutingCostWrapper : public BaseT, public wrapper<BaseT> {
   }
 
   double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                           const ConstLanelets& to) const noexcept override {
+                           const ConstLanelets& to) const override {
     const auto o = this->get_override("getCostLaneChange");
     if (o) {
       return o(boost::ref(trafficRules), from, to);
diff --git a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
index 789d123..7565e2d 100644
--- a/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
+++ b/lanelet2_routing/include/lanelet2_routing/RoutingCost.h
@@ -61,7 +61,7 @@ class RoutingCostDistance : public RoutingCost {
     return (from.applyVisitor(getLength) + to.applyVisitor(getLength)) / 2;
   }
   inline double getCostLaneChange(const traffic_rules::TrafficRules& /*trafficRules*/, const ConstLanelets& from,
-                                  const ConstLanelets& /*to*/) const noexcept override {
+                                  const ConstLanelets& /*to*/) const override {
     if (minChangeLength_ <= 0.) {
       return laneChangeCost_;
     }
@@ -94,7 +94,7 @@ class RoutingCostTravelTime : public RoutingCost {
   }
 
   inline double getCostLaneChange(const traffic_rules::TrafficRules& trafficRules, const ConstLanelets& from,
-                                  const ConstLanelets& /*to*/) const noexcept override {
+                                  const ConstLanelets& /*to*/) const override {
     if (minChangeTime_ <= 0.) {
       return laneChangeCost_;
     }
-- 
2.43.0


From e83ffec7e29f5dcd9e0263cb6a6c7150932b836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 68/74] fix: detect inversions of lines offset to the right as
 well

---
 lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index c38c43d..a9e9588 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -463,7 +463,7 @@ inline void checkForInversion(const LineString2dT& oldLS, const BasicLineString2
   for (const auto& p : offsetLS) {
     auto it = tree.qbegin(internal::bgi::nearest(p, 1));
     auto pd = geometry::distance2d(BasicLineString2d{it->first, it->second}, p);
-    if (pd + epsilon < distance) {
+    if (pd + epsilon < std::abs(distance)) {
       throw GeometryError("Possible Lanelet Inversion");
     }
   }
-- 
2.43.0


From 7fda6a6a087cf12a3f45687efb634844b516afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 69/74] fix: check the segments of an offset line for
 inversions, not only its points

---
 .../include/lanelet2_core/geometry/impl/LineString.h       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index a9e9588..82c061a 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -460,9 +460,10 @@ template <typename LineString2dT>
 inline void checkForInversion(const LineString2dT& oldLS, const BasicLineString2d& offsetLS, const double distance,
                               const double epsilon = 1.e-7) {
   auto tree = internal::makeSegmentTree(oldLS);
-  for (const auto& p : offsetLS) {
-    auto it = tree.qbegin(internal::bgi::nearest(p, 1));
-    auto pd = geometry::distance2d(BasicLineString2d{it->first, it->second}, p);
+  for (size_t i = 0; i + 1 < offsetLS.size(); ++i) {
+    BasicSegment2d seg{offsetLS.at(i), offsetLS.at(i + 1)};
+    auto it = tree.qbegin(internal::bgi::nearest(seg, 1));
+    auto pd = boost::geometry::distance(*it, seg);
     if (pd + epsilon < std::abs(distance)) {
       throw GeometryError("Possible Lanelet Inversion");
     }
-- 
2.43.0


From 5d5be4e990e8c2d5b997f67afed4881d6fa7bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 70/74] fix: let sharp corners of lines offset to the right
 overshoot outwards

---
 lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index 82c061a..ab9ac9f 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -514,7 +514,7 @@ inline BasicLineString2d shiftConvexSharp(const LineString2dT& lineString, const
   BasicPoint2d firstP = shiftPerpendicular(lineString, idx, distance, true, pv);
   BasicPoint2d lastP = shiftPerpendicular(lineString, idx, distance, false, pv);
   auto alpha = M_PI - std::acos(pv.following.dot(pv.preceding) / (pv.preceding.norm() * pv.following.norm()));
-  auto overshoot = distance * std::tan(M_PI_4 - alpha / 4);
+  auto overshoot = std::abs(distance) * std::tan(M_PI_4 - alpha / 4);
   return {firstP + pv.preceding.normalized() * overshoot, lastP - pv.following.normalized() * overshoot};
 }
 
-- 
2.43.0


From 06e2f9980dc14e889d4a46fefa1fcd2584c9a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 71/74] fix: continue offset lines at the segment of the
 intersection

---
 .../lanelet2_core/geometry/impl/LineString.h  | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
index ab9ac9f..8efc9db 100644
--- a/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
+++ b/lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h
@@ -617,28 +617,17 @@ inline BasicLineString2d joinSubStrings(const std::vector<BasicLineString2d>& co
   }
   double lastS{0.};
   BasicLineString2d newLS{convexSubStrings.front().front()};
-  size_t i = 0;
   size_t idx = 0;
-  while (i < convexSubStrings.size()) {
-    const auto& ls = convexSubStrings.at(i);
-    for (size_t j = 0; j + 1 < ls.size(); ++j) {
-      BasicSegment2d curSeg{ls.at(j), ls.at(j + 1)};
-      auto curSegIntersections = getSelfIntersectionsAt(tree, idx, curSeg);
-      auto np = findNextPoint(curSegIntersections, curSeg, lastS, idx);
-      newLS.emplace_back(np.nextPoint);
-      idx = np.nextSegIdx;
-      if (idx >= segMap.size()) {
-        i = convexSubStrings.size();
-        break;
-      }
-      lastS = np.lastS;
-      if (segMap.at(idx).lineStringIdx != i) {
-        i = segMap.at(idx).lineStringIdx;
-        break;
-      }
-    }
+  while (idx < segMap.size()) {
+    const auto& coord = segMap.at(idx);
+    const auto& ls = convexSubStrings.at(coord.lineStringIdx);
+    BasicSegment2d curSeg{ls.at(coord.segmentIdx), ls.at(coord.segmentIdx + 1)};
+    auto curSegIntersections = getSelfIntersectionsAt(tree, idx, curSeg);
+    auto np = findNextPoint(curSegIntersections, curSeg, lastS, idx);
+    newLS.emplace_back(np.nextPoint);
+    idx = np.nextSegIdx;
+    lastS = np.lastS;
   }
-  newLS.push_back(convexSubStrings.back().back());
   return newLS;
 }
 
-- 
2.43.0


From 58f8c08f5e4e6baaa77f0d4e2fe14054384c94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 72/74] fix: let print_ids.py report missing ids

---
 lanelet2_python/scripts/print_ids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_python/scripts/print_ids.py b/lanelet2_python/scripts/print_ids.py
index dca9c49..74eef78 100755
--- a/lanelet2_python/scripts/print_ids.py
+++ b/lanelet2_python/scripts/print_ids.py
@@ -30,4 +30,4 @@ for layer_name, layer in layers.items():
                 print("Found ID " + str(elem.id) + " in layer " + layer_name)
                 sys.exit(0)
 if args.has_id:
-    print("ID " + args.has_id + " not in map")
+    print("ID " + str(args.has_id) + " not in map")
-- 
2.43.0


From 2fb74223850b97d3c5cb09e6771c49fda9d716f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 73/74] fix: tell relations of an OSM file apart by their
 members

---
 lanelet2_io/src/OsmFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index ed7fb31..42de937 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -350,7 +350,7 @@ bool operator==(const Way& lhs, const Way& rhs) {
 bool operator==(const Relation& lhs, const Relation& rhs) {
   auto membersEqual = [&lhs, &rhs]() {
     for (auto itL = lhs.members.begin(), itR = rhs.members.begin(); itL != lhs.members.end(); ++itL, ++itR) {
-      if (itL->second->type() != itR->second->type() && itL->second->id != itR->second->id) {
+      if (itL->second->type() != itR->second->type() || itL->second->id != itR->second->id) {
         return false;
       }
     }
-- 
2.43.0


From 24fa0ae7aa16a3aedee7d5d8fdc8e42fd6e7b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:58 +0000
Subject: [PATCH 74/74] fix: elevation tags of ways and relations were lost
 when reading OSM files

---
 lanelet2_io/src/OsmFile.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lanelet2_io/src/OsmFile.cpp b/lanelet2_io/src/OsmFile.cpp
index 42de937..3725735 100644
--- a/lanelet2_io/src/OsmFile.cpp
+++ b/lanelet2_io/src/OsmFile.cpp
@@ -43,9 +43,6 @@ Attributes tags(const pugi::xml_node& node) {
   Attributes attributes;
   for (auto tag = node.child(keyword::Tag); tag;  // NOLINT
        tag = tag.next_sibling(keyword::Tag)) {
-    if (std::string(tag.attribute(keyword::Key).value()) == keyword::Elevation) {
-      continue;
-    }
     attributes[tag.attribute(keyword::Key).value()] = tag.attribute(keyword::Value).value();
   }
   return attributes;
@@ -213,7 +210,8 @@ class OsmFileParser {
       if (!checkId(id, nodes)) {
         continue;
       }
-      const auto attributes = tags(node);
+      auto attributes = tags(node);
+      attributes.erase(keyword::Elevation);  // is part of the position
       const auto lat = node.attribute(keyword::Lat).as_double(0.);
       const auto lon = node.attribute(keyword::Lon).as_double(0.);
       const auto ele = node.find_child_by_attribute(keyword::Tag, keyword::Key, keyword::Elevation)
-- 
2.43.0

