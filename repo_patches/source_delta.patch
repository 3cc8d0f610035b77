From 45a3a292a62cc806e75139f771a9972c4c45e289 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 01/68] fix: make the output operator for links usable

The template parameters of the Link alias cannot be deduced, so that the
operator was never found
---
 include/podio/detail/Link.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 9193f80..5639b86 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -348,8 +348,8 @@ private:
   podio::utils::MaybeSharedPtr<LinkObjT> m_obj{nullptr};
 };
 
-template <typename FromT, typename ToT>
-std::ostream& operator<<(std::ostream& os, const Link<FromT, ToT>& link) {
+template <typename FromT, typename ToT, bool Mutable>
+std::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& link) {
   if (!link.isAvailable()) {
     return os << "[not available]";
   }
-- 
2.43.0


From 8b02f5c3b96ae89c50f8ad2d971bd986a8459324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 02/68] fix: give collections their storage back when they stop
 being subset collections

An empty collection that was made a subset collection and then switched back
had no data storage, so that writing it dereferenced a null pointer.
---
 include/podio/detail/LinkCollectionImpl.h | 7 +++++++
 python/templates/Collection.cc.jinja2     | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cf498c3..a596624 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -307,6 +307,13 @@ public:
 
     if (setSubset) {
       m_storage.makeSubsetCollection();
+    } else if (m_isSubsetColl) {
+      // Subset collections have given up the storage that is necessary for
+      // normal collections
+      m_storage = CollectionDataT();
+    }
+    if (m_isSubsetColl != setSubset) {
+      m_isPrepared = false;
     }
     m_isSubsetColl = setSubset;
   }
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..c912a76 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -78,6 +78,13 @@ void {{ collection_type }}::setSubsetCollection(bool setSubset) {
 
   if (setSubset) {
     m_storage.makeSubsetCollection();
+  } else if (m_isSubsetColl) {
+    // Subset collections have given up the storage that is necessary for
+    // normal collections
+    m_storage = {{ collection_type }}Data();
+  }
+  if (m_isSubsetColl != setSubset) {
+    m_isPrepared = false;
   }
   m_isSubsetColl = setSubset;
 }
-- 
2.43.0


From f64987088bb43701749e1208299e935996b89dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 03/68] fix: release the objects of a collection that is move
 assigned

The defaulted move assignment dropped the pointers to the objects an owning
collection still held without deleting them.
---
 include/podio/detail/LinkCollectionImpl.h | 14 +++++++++++++-
 python/templates/Collection.cc.jinja2     | 14 ++++++++++++++
 python/templates/Collection.h.jinja2      |  2 +-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index a596624..f6b098e 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -69,7 +69,19 @@ public:
   LinkCollection(const LinkCollection&) = delete;
   LinkCollection& operator=(const LinkCollection&) = delete;
   LinkCollection(LinkCollection&&) = default;
-  LinkCollection& operator=(LinkCollection&&) = default;
+  LinkCollection& operator=(LinkCollection&& other) noexcept {
+    if (this != &other) {
+      // Clean up what is currently in here, since the storage does not know
+      // whether it owns its objects
+      m_storage.clear(m_isSubsetColl);
+      m_isPrepared = other.m_isPrepared;
+      m_isSubsetColl = other.m_isSubsetColl;
+      m_collectionID = other.m_collectionID;
+      m_storageMtx = std::move(other.m_storageMtx);
+      m_storage = std::move(other.m_storage);
+    }
+    return *this;
+  }
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor from range in order to enable the use of std::ranges::to see
   /// @ref from.
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index c912a76..e68e5bd 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -32,6 +32,20 @@
 {{ collection_type }}::{{ collection_type }}({{ collection_type }}Data&& data, bool isSubsetColl) :
   m_isSubsetColl(isSubsetColl), m_storage(std::move(data)) {}
 
+{{ collection_type }}& {{ collection_type }}::operator=({{ collection_type }}&& other) noexcept {
+  if (this != &other) {
+    // Clean up what is currently in here, since the storage does not know
+    // whether it owns its objects
+    m_storage.clear(m_isSubsetColl);
+    m_isPrepared = other.m_isPrepared;
+    m_isSubsetColl = other.m_isSubsetColl;
+    m_collectionID = other.m_collectionID;
+    m_storageMtx = std::move(other.m_storageMtx);
+    m_storage = std::move(other.m_storage);
+  }
+  return *this;
+}
+
 {{ collection_type }}::~{{ collection_type }}() {
   // Need to tell the storage how to clean-up
   m_storage.clear(m_isSubsetColl);
diff --git a/python/templates/Collection.h.jinja2 b/python/templates/Collection.h.jinja2
index c74a50d..7363176 100644
--- a/python/templates/Collection.h.jinja2
+++ b/python/templates/Collection.h.jinja2
@@ -61,7 +61,7 @@ public:
   {{ class.bare_type }}Collection(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection& operator=(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection({{ class.bare_type }}Collection&&) = default;
-  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&&) = default;
+  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&& other) noexcept;
 
   ~{{ class.bare_type }}Collection() override;
 #if defined(__cpp_lib_containers_ranges)
-- 
2.43.0


From c4cbc9f00324d81ca2bf41781321e76423f4942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 04/68] fix: make unpacking collections from a Frame safe for
 concurrent use

Getting a collection that another thread was just unpacking could report
it as missing, or hand it out before its references were set, and the set
of retrieved IDs and the copy of the ID table were not guarded at all.
---
 include/podio/Frame.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..6c1c73f 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -134,7 +134,8 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
-      // Make a copy
+      // Make a copy (the table only ever changes with the map lock held)
+      std::lock_guard lock{*m_mapMtx};
       return {m_idTable.ids(), m_idTable.names()};
     }
 
@@ -149,7 +150,11 @@ class Frame {
     mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr};  ///< The mutex for guarding the internal collection map
     std::unique_ptr<FrameDataT> m_data{nullptr};            ///< The raw data read from file
     mutable std::unique_ptr<std::mutex> m_dataMtx{nullptr}; ///< The mutex for guarding the raw data
-    podio::CollectionIDTable m_idTable{};                   ///< The collection ID table
+    /// The mutex for making a collection and everything it refers to go from
+    /// the raw data into the map (with all references set) in one step. Has to
+    /// be acquired before any of the other mutexes
+    mutable std::unique_ptr<std::mutex> m_unpackMtx{nullptr};
+    podio::CollectionIDTable m_idTable{};                            ///< The collection ID table
     std::unique_ptr<podio::GenericParameters> m_parameters{nullptr}; ///< The generic parameter store for this frame
     mutable std::set<uint32_t> m_retrievedIDs{}; ///< The IDs of the collections that we have already read (but not yet
                                                  ///< put into the map)
@@ -424,7 +429,9 @@ const CollT& Frame::put(CollT&& coll, const std::string& name) {
 
 template <typename FrameDataT>
 Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
-    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
+    m_mapMtx(std::make_unique<std::mutex>()),
+    m_dataMtx(std::make_unique<std::mutex>()),
+    m_unpackMtx(std::make_unique<std::mutex>()) {
   if (!data) {
     throw std::invalid_argument(
         "FrameData is a nullptr. If you are reading from a file it may be corrupted or you may reading beyond the end "
@@ -437,6 +444,7 @@ Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
 
 template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::get(const std::string& name) const {
+  std::lock_guard lock{*m_unpackMtx};
   return doGet(name);
 }
 
@@ -550,7 +558,9 @@ std::vector<std::string> Frame::FrameModel<FrameDataT>::availableCollections() c
   // idTable here, because that should in principle encompass everything that is
   // in the raw data as well as things that have been put into the frame
 
-  // Lock both the internal map and the rawdata for this
+  // Lock both the internal map and the rawdata for this, but only after all
+  // collections that are currently being unpacked have arrived in the map
+  std::lock_guard unpackLock{*m_unpackMtx};
   std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
 
   auto collections = m_data->getAvailableCollections();
-- 
2.43.0


From 8d532a41edc052f08f5ddc2c394372213def6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 05/68] fix: only look at the parameter maps with their lock
 held

---
 include/podio/GenericParameters.h |  2 +-
 src/GenericParameters.cc          | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..5d6ae5b 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -232,10 +232,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
diff --git a/src/GenericParameters.cc b/src/GenericParameters.cc
index 6befeb2..6889b8b 100644
--- a/src/GenericParameters.cc
+++ b/src/GenericParameters.cc
@@ -32,7 +32,8 @@ std::ostream& operator<<(std::ostream& os, const std::vector<T>& values) {
 }
 
 template <typename MapType>
-void printMap(const MapType& map, std::ostream& os) {
+void printMap(const MapType& map, std::mutex& mtx, std::ostream& os) {
+  std::lock_guard lock{mtx};
   const auto osflags = os.flags();
   os << std::left << std::setw(30) << "Key "
      << "Value " << '\n';
@@ -46,13 +47,13 @@ void printMap(const MapType& map, std::ostream& os) {
 
 void GenericParameters::print(std::ostream& os, bool flush) const {
   os << "int parameters\n\n";
-  printMap(getMap<int>(), os);
+  printMap(getMap<int>(), getMutex<int>(), os);
   os << "\nfloat parameters\n";
-  printMap(getMap<float>(), os);
+  printMap(getMap<float>(), getMutex<float>(), os);
   os << "\ndouble parameters\n";
-  printMap(getMap<double>(), os);
+  printMap(getMap<double>(), getMutex<double>(), os);
   os << "\nstd::string parameters\n";
-  printMap(getMap<std::string>(), os);
+  printMap(getMap<std::string>(), getMutex<std::string>(), os);
 
   if (flush) {
     os.flush();
-- 
2.43.0


From 7f4d9ddf9502fdfda1a6ff09747937f6015db130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 06/68] fix: refuse to put a collection under a name that is
 still in the raw data

---
 include/podio/Frame.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 6c1c73f..67c7689 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -9,6 +9,7 @@
 #include "podio/SchemaEvolution.h"
 #include "podio/utilities/TypeHelpers.h"
 
+#include <algorithm>
 #include <concepts>
 #include <initializer_list>
 #include <memory>
@@ -532,14 +533,24 @@ bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*&
 template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
+  // Nothing can move from the raw data to the map while this is locked
+  std::lock_guard unpackLock{*m_unpackMtx};
+  // A name that is (only) in the raw data is just as taken as one in the map.
+  // All the names in the raw data are known to the idTable
+  if (m_idTable.present(name)) {
+    std::lock_guard dataLock{*m_dataMtx};
+    const auto inData = m_data->getAvailableCollections();
+    if (std::find(inData.begin(), inData.end(), name) != inData.end()) {
+      throw std::invalid_argument("An object with key " + name + " already exists in the frame");
+    }
+  }
+
   {
     std::lock_guard lock{*m_mapMtx};
     auto [it, success] = m_collections.try_emplace(name, std::move(coll));
     if (success) {
       // TODO: Check whether this collection is already known to the idTable
       // -> What to do on collision?
-      // -> Check before we emplace it into the internal map to prevent possible
-      //    collisions from collections that are potentially present from rawdata?
       it->second->setID(m_idTable.add(name));
       return it->second.get();
     } else {
-- 
2.43.0


From 1e14adef53aad2e312d7956873fe9659eb948efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 07/68] fix: guard clearing parameters and checking them for
 emptiness

The mutexes now also stay with their object on moving, such that a moved
from object can be cleared and used again.
---
 include/podio/GenericParameters.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index 5d6ae5b..6c39882 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -60,9 +60,21 @@ public:
   GenericParameters(const GenericParameters&);
   GenericParameters& operator=(const GenericParameters&) = delete;
 
-  /// GenericParameters are default moveable
-  GenericParameters(GenericParameters&&) = default;
-  GenericParameters& operator=(GenericParameters&&) = default;
+  /// GenericParameters are moveable
+  /// @note The mutexes stay with their objects to keep the moved-from one usable
+  GenericParameters(GenericParameters&& other) noexcept :
+      _intMap(std::move(other._intMap)),
+      _floatMap(std::move(other._floatMap)),
+      _stringMap(std::move(other._stringMap)),
+      _doubleMap(std::move(other._doubleMap)) {
+  }
+  GenericParameters& operator=(GenericParameters&& other) noexcept {
+    _intMap = std::move(other._intMap);
+    _floatMap = std::move(other._floatMap);
+    _stringMap = std::move(other._stringMap);
+    _doubleMap = std::move(other._doubleMap);
+    return *this;
+  }
 
   ~GenericParameters() = default;
 
@@ -107,6 +119,7 @@ public:
 
   /// erase all elements
   void clear() {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     _intMap.clear();
     _floatMap.clear();
     _doubleMap.clear();
@@ -117,6 +130,7 @@ public:
 
   /// Check if no parameter is stored (i.e. if all internal maps are empty)
   bool empty() const {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     return _intMap.empty() && _floatMap.empty() && _doubleMap.empty() && _stringMap.empty();
   }
 
-- 
2.43.0


From d15f021134f51afbef69041a1c8adae551dec9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 08/68] fix: accept mutable handles in the type based setter of
 links

---
 include/podio/detail/Link.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 5639b86..0b30857 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -269,9 +269,9 @@ public:
              (isMutableFromOrToT<T> || detail::isInterfaceInitializableFrom<ToT, T> ||
               detail::isInterfaceInitializableFrom<FromT, T>))
   void set(T value) {
-    if constexpr (std::is_same_v<T, FromT>) {
+    if constexpr (detail::isInTuple<T, std::tuple<FromT, detail::GetMutableHandleType<FromT>>>) {
       setFrom(std::move(value));
-    } else if constexpr (std::is_same_v<T, ToT>) {
+    } else if constexpr (detail::isInTuple<T, std::tuple<ToT, detail::GetMutableHandleType<ToT>>>) {
       setTo(std::move(value));
     } else if constexpr (detail::isInterfaceInitializableFrom<FromT, T> &&
                          !detail::isInterfaceInitializableFrom<ToT, T>) {
-- 
2.43.0


From a1f1f3d5b7122a2bb1d76b4e7f11c618dfae65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 09/68] fix: do not look up schema version 0, versions start at
 1

---
 src/CollectionBufferFactory.cc | 3 ++-
 src/SchemaEvolution.cc         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..4d30492 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,8 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    // Versions start at 1
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..423e649 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,7 +24,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
       return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
-- 
2.43.0


From dc047dfde4b08ed8ca21b478b36ec85b6b03034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 10/68] fix: do not override user defined evolution functions
 with auto generated ones

---
 include/podio/SchemaEvolution.h | 22 ++++++++++++++++------
 src/SchemaEvolution.cc          |  9 +++++----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..ee4899a 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -30,10 +30,6 @@ class SchemaEvolution {
   /// The interface of any evolution function takes buffers and a version and
   /// returns buffers.
   using EvolutionFuncT = std::function<podio::CollectionReadBuffers(podio::CollectionReadBuffers&&, SchemaVersionT)>;
-  /// Each datatype gets its own version "map" where the index defines the
-  /// version from which the schema evolution has to start to end up in the
-  /// current version
-  using EvolFuncVersionMapT = std::vector<EvolutionFuncT>;
 
   /// Helper struct combining the current schema version of each type and an
   /// index into the schema evolution "map" below
@@ -47,14 +43,28 @@ class SchemaEvolution {
   /// The map that holds the current version for each type that is known to
   /// the schema evolution
   using VersionMapT = std::unordered_map<std::string, MapIndex>;
-  /// The "map" that holds all evolution functions
-  using EvolutionMapT = std::vector<EvolFuncVersionMapT>;
 
 public:
   /// Enum to make it possible to prioritize evolution functions during
   /// registration, making AutoGenerated lower priority than UserDefined
   enum class Priority { AutoGenerated = 0, UserDefined = 1 };
 
+private:
+  /// An evolution function together with the priority it has been registered with
+  struct EvolutionEntry {
+    EvolutionFuncT func{};
+    Priority priority{Priority::AutoGenerated};
+  };
+
+  /// Each datatype gets its own version "map" where the index defines the
+  /// version from which the schema evolution has to start to end up in the
+  /// current version
+  using EvolFuncVersionMapT = std::vector<EvolutionEntry>;
+
+  /// The "map" that holds all evolution functions
+  using EvolutionMapT = std::vector<EvolFuncVersionMapT>;
+
+public:
   /// The SchemaEvolution is a singleton so we disable all copy and move
   /// constructors explicitly
   SchemaEvolution(const SchemaEvolution&) = delete;
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index 423e649..482c1d8 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -27,7 +27,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
-      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
+      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
 
@@ -62,9 +62,10 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
     versionMap.resize(currentVersion);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  // User defined functions are never overridden by auto generated ones
+  auto& entry = versionMap[fromVersion - 1];
+  if (!entry.func || priority >= entry.priority) {
+    entry = {evolutionFunc, priority};
   }
 }
 
-- 
2.43.0


From 953ae2276aea1825ae1cb84715022f9e98d518e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 11/68] fix: print related objects by their ID, not recursively

---
 python/templates/Object.cc.jinja2              |  2 +-
 python/templates/macros/implementations.jinja2 | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/python/templates/Object.cc.jinja2 b/python/templates/Object.cc.jinja2
index 3e4fb95..80c32d8 100644
--- a/python/templates/Object.cc.jinja2
+++ b/python/templates/Object.cc.jinja2
@@ -35,7 +35,7 @@
 {{ macros.common_object_funcs(class) }}
 
 {{ macros.ostream_operator(class.bare_type, Members,
-                           OneToOneRelations, OneToManyRelations + VectorMembers,
+                           OneToOneRelations, OneToManyRelations, VectorMembers,
                            use_get_syntax) }}
 
 {{ macros.json_output(class, Members,
diff --git a/python/templates/macros/implementations.jinja2 b/python/templates/macros/implementations.jinja2
index 9653c4f..6d83868 100644
--- a/python/templates/macros/implementations.jinja2
+++ b/python/templates/macros/implementations.jinja2
@@ -189,7 +189,7 @@ bool {{ full_type }}::operator==(const {{ inverse_type }}& other) const {
 {%- endmacro %}
 
 
-{% macro ostream_operator(type, members, single_relations, multi_relations, get_syntax) %}
+{% macro ostream_operator(type, members, single_relations, multi_relations, vector_members, get_syntax) %}
 std::ostream& operator<<(std::ostream& o, const {{ type }}& value) {
   if (!value.isAvailable()) {
     return o << "[not available]";
@@ -214,11 +214,15 @@ std::ostream& operator<<(std::ostream& o, const {{ type }}& value) {
 {% for relation in multi_relations %}
   o << " {{ relation.name }} : ";
   for (unsigned i = 0; i < value.{{ relation.name }}_size(); ++i) {
-{% if type == relation.bare_type %}
     o << value.{{ relation.getter_name(get_syntax) }}(i).id() << " ";
-{% else %}
-    o << value.{{ relation.getter_name(get_syntax) }}(i) << " ";
-{% endif %}
+  }
+  o << '\n';
+{% endfor %}
+
+{% for member in vector_members %}
+  o << " {{ member.name }} : ";
+  for (unsigned i = 0; i < value.{{ member.name }}_size(); ++i) {
+    o << value.{{ member.getter_name(get_syntax) }}(i) << " ";
   }
   o << '\n';
 {% endfor %}
-- 
2.43.0


From 22595a537a4ff9b3b19a006395fd5f6fbb611195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 12/68] fix: print elements of subset collections that are not
 available

---
 include/podio/detail/LinkCollectionImpl.h  | 4 ++++
 python/templates/macros/collections.jinja2 | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index f6b098e..f87d1cc 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -399,6 +399,10 @@ std::ostream& operator<<(std::ostream& o, const LinkCollection<FromT, ToT>& v) {
   const auto old_flags = o.flags();
   o << "          id:      weight:" << '\n';
   for (const auto&& el : v) {
+    if (!el.isAvailable()) {
+      o << "[not available]" << std::endl;
+      continue;
+    }
     o << std::scientific << std::showpos << std::setw(12) << el.id() << " " << std::setw(12) << " " << el.getWeight()
       << '\n';
 
diff --git a/python/templates/macros/collections.jinja2 b/python/templates/macros/collections.jinja2
index 87a72dc..912c727 100644
--- a/python/templates/macros/collections.jinja2
+++ b/python/templates/macros/collections.jinja2
@@ -107,6 +107,10 @@ std::ostream& operator<<(std::ostream& o, const {{ class.bare_type }}Collection&
 {%- endfor -%}" << '\n';
 
   for (const auto&& el : v) {
+    if (!el.isAvailable()) {
+      o << "[not available]" << std::endl;
+      continue;
+    }
     o << std::scientific << std::showpos << std::setw({{ col_width }}) << el.id() << " "
 {% for member in members %}
 {% if not member.is_array %}
-- 
2.43.0


From c8cbbb196ba27b66dfd4f60d0b7c0bc4e93126ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 13/68] fix: output subset collections of links as IDs in JSON

---
 include/podio/detail/LinkCollectionImpl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index f87d1cc..e368099 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -478,8 +478,13 @@ namespace detail {
 template <typename FromT, typename ToT>
 void to_json(nlohmann::json& j, const podio::LinkCollection<FromT, ToT>& collection) {
   j = nlohmann::json::array();
+  const auto subset = collection.isSubsetCollection();
   for (auto&& elem : collection) {
-    j.emplace_back(elem);
+    if (subset) {
+      j.emplace_back(elem.id());
+    } else {
+      j.emplace_back(elem);
+    }
   }
 }
 #endif
-- 
2.43.0


From 76f46deef975bc4280e6a6028e523a47f5e36011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 14/68] fix: generate code that compiles for types with
 relations to each other

---
 python/podio_gen/cpp_generator.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 01c2b65..dcb4884 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -454,6 +454,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             if self._is_in(relation.full_type, "interfaces"):
                 relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
             if self._needs_include(relation.full_type):
+                # Types can have relations to each other, in which case their headers
+                # include each other and need a declaration independent of the order
+                fwd_declarations[relation.namespace].append(relation.bare_type)
                 includes.add(self._build_include(relation))
 
         for vectormember in datatype["VectorMembers"]:
@@ -497,12 +500,14 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         if datatype["VectorMembers"] or datatype["OneToManyRelations"]:
             includes.add("#include <vector>")
 
-        for relation in datatype["VectorMembers"] + datatype["OneToManyRelations"]:
-            if not relation.is_builtin:
-                if relation.full_type == datatype["class"].full_type:
-                    includes_cc.add(self._build_include(datatype["class"]))
-                else:
-                    includes.add(self._build_include(relation))
+        for member in datatype["VectorMembers"]:
+            if not member.is_builtin:
+                includes.add(self._build_include(member))
+
+        for relation in datatype["OneToManyRelations"]:
+            if relation.full_type != datatype["class"].full_type:
+                fwd_declarations[relation.namespace].append(relation.bare_type)
+            includes_cc.add(self._build_include(relation))
 
         datatype["forward_declarations_obj"] = fwd_declarations
         datatype["includes_obj"] = self._sort_includes(includes)
-- 
2.43.0


From b97ca75f78fc9ecd18936935d820fe50417daeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 15/68] fix: keep includes that do not contain the package name

---
 python/podio_gen/cpp_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index dcb4884..fcf6dcd 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -1079,6 +1079,9 @@ have resolvable schema evolution incompatibilities:"
                 stl_includes.append(include)
             elif self.upstream_edm and self.upstream_edm.options["includeSubfolder"] in include:
                 upstream_includes.append(include)
+            elif include.startswith("#include"):
+                # From this datamodel without a subfolder or from extra code
+                package_includes.append(include)
             else:
                 print(f"Warning: unable to include '{include}'")
 
-- 
2.43.0


From 7e8a66aea829ac66f0d5c41b4a24325e0f75ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 16/68] fix: use the getter syntax also for exposed members of
 components

---
 python/templates/macros/declarations.jinja2 | 4 ++--
 python/templates/macros/interface.jinja2    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 75058f5..06e6a32 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -17,7 +17,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const;
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const;
 {% endfor %}
 {% endif %}
 
@@ -43,7 +43,7 @@
   /// Get reference to the member of {{ member.docstring }}
   {{ sub_member.full_type }}& {{ sub_member.name }}();
   /// Set the member of  {{ member.docstring }}
-  void {{ sub_member.setter_name(get_sytnax) }}({{ sub_member.full_type }} value);
+  void {{ sub_member.setter_name(get_syntax) }}({{ sub_member.full_type }} value);
 {% endif %}
 {% endfor %}
 {% endif %}
diff --git a/python/templates/macros/interface.jinja2 b/python/templates/macros/interface.jinja2
index 44e9ad0..675f4c6 100644
--- a/python/templates/macros/interface.jinja2
+++ b/python/templates/macros/interface.jinja2
@@ -6,7 +6,7 @@
 {%- endif %}
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
-    virtual {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const = 0;
+    virtual {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const = 0;
 {% endfor %}
 {% endif %}
 
@@ -22,7 +22,7 @@
 {%- endif %}
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
-    {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const final { return m_value.{{ sub_member.getter_name(get_syntax) }}(); }
+    {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const final { return m_value.{{ sub_member.getter_name(get_syntax) }}(); }
 {% endfor %}
 {% endif %}
 
@@ -40,7 +40,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const { return m_self->{{ sub_member.getter_name(get_syntax) }}(); }
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const { return m_self->{{ sub_member.getter_name(get_syntax) }}(); }
 {% endfor %}
 {% endif %}
 
-- 
2.43.0


From 0228cbd2a7a969d20b45e9cb57f12a42b1177735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 17/68] fix: find components and interfaces of the upstream
 datamodel when generating code

---
 python/podio_gen/cpp_generator.py       | 10 +++++++---
 python/podio_gen/generator_base.py      |  8 ++++++++
 python/podio_gen/podio_config_reader.py |  5 ++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index fcf6dcd..1432ab2 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -436,11 +436,13 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for member in datatype["Members"]:
             if self.expose_pod_members and not member.is_builtin and not member.is_array:
-                member.sub_members = self.datamodel.components[member.full_type]["Members"]
+                member.sub_members = self._get_definition(member.full_type, "components")["Members"]
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition(
+                    relation.full_type, "interfaces"
+                )["Types"]
             if self._needs_include(relation.full_type):
                 fwd_declarations[relation.namespace].append(relation.bare_type)
                 fwd_declarations[relation.namespace].append(f"Mutable{relation.bare_type}")
@@ -452,7 +454,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for relation in datatype["OneToManyRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition(
+                    relation.full_type, "interfaces"
+                )["Types"]
             if self._needs_include(relation.full_type):
                 # Types can have relations to each other, in which case their headers
                 # include each other and need a declaration independent of the order
diff --git a/python/podio_gen/generator_base.py b/python/podio_gen/generator_base.py
index e70b5fc..57879b3 100644
--- a/python/podio_gen/generator_base.py
+++ b/python/podio_gen/generator_base.py
@@ -323,3 +323,11 @@ class ClassGeneratorBaseMixin:
                 getattr(self.upstream_edm, category)
             )
         return classname in all_classes
+
+    def _get_definition(self, classname, category):
+        """Get the definition of a class of the given category (components,
+        datatypes, interfaces) from this or from the upstream datamodel"""
+        definitions = getattr(self.datamodel, category)
+        if classname not in definitions and self.upstream_edm:
+            definitions = getattr(self.upstream_edm, category)
+        return definitions[classname]
diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 928f5a3..69a26b4 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -317,7 +317,10 @@ class ClassDefinitionValidator:
 
             all_members[member.name] = classname
             if expose_pod_members and not member.is_builtin and not member.is_array:
-                for sub_member in datamodel.components[member.full_type]["Members"]:
+                component = datamodel.components.get(member.full_type)
+                if component is None:
+                    component = upstream_edm.components[member.full_type]
+                for sub_member in component["Members"]:
                     if sub_member.name in all_members:
                         raise DefinitionError(
                             f"'{sub_member.name}' clashes with another member name in class "
-- 
2.43.0


From 9092e296e5e13ff5005bd12614c66103d1b29c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 18/68] fix: do not overwrite the list of generated files in a
 dry run

---
 python/podio_gen/cpp_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 1432ab2..26e1b93 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -855,6 +855,9 @@ have resolvable schema evolution incompatibilities:"
 
     def _write_cmake_lists_file(self):
         """Write the names of all generated header and src files into cmake lists"""
+        if self.dryrun:
+            return
+
         header_files = list(f for f in self.generated_files if f.endswith(".h"))
         src_files = (f for f in self.generated_files if f.endswith(".cc"))
         xml_files = (f for f in self.generated_files if f.endswith(".xml"))
-- 
2.43.0


From 7dc69df825f80410b95a52d4277269149109ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 19/68] fix: report components without members as definition
 error

---
 python/podio_gen/podio_config_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 69a26b4..13f3d3d 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -211,6 +211,9 @@ class ClassDefinitionValidator:
                         f"{name} defines a '{field}' field which is not allowed for a component"
                     )
 
+            if "Members" not in component:
+                raise DefinitionError(f"component '{name}' does not define any 'Members'")
+
             if "ExtraCode" in component:
                 for key in component["ExtraCode"]:
                     if key not in ("declaration", "declarationFile", "includes"):
-- 
2.43.0


From 04576120ab31f43d132230fcaa4896b2ad758567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 20/68] fix: check the categories of MutableExtraCode as well

---
 python/podio_gen/podio_config_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 13f3d3d..603382b 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -394,12 +394,12 @@ class ClassDefinitionValidator:
             if key not in definition:
                 raise DefinitionError(f"'{classname}' does not define '{key}'")
 
-        if "ExtraCode" in definition:
-            extracode = definition["ExtraCode"]
+        for extra_key in cls.valid_extra_datatype_keys:
+            extracode = definition.get(extra_key, {})
             invalid_keys = [k for k in extracode if k not in cls.valid_extra_code_keys]
             if invalid_keys:
                 raise DefinitionError(
-                    f"{classname} defines invalid 'ExtraCode' categories: " f"{invalid_keys}"
+                    f"{classname} defines invalid '{extra_key}' categories: {invalid_keys}"
                 )
 
     @classmethod
-- 
2.43.0


From d3405f13ca87e456593eeffd4d8fd65f054c8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 21/68] fix: report schema versions of any wrong type as
 definition error

---
 python/podio_gen/podio_config_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 603382b..38d4087 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -575,7 +575,7 @@ class PodioConfigReader:
         except KeyError:
             # pylint: disable-next=raise-missing-from
             raise DefinitionError("Please provide a 'schema_version' in your definition")
-        except ValueError:
+        except (TypeError, ValueError):
             # pylint: disable-next=raise-missing-from
             raise DefinitionError(
                 f"schema_version has to be convertible to int (is {model_dict['schema_version']})"
-- 
2.43.0


From 25132500cc018af71e38462b791c3c7ddbd77f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 22/68] fix: reject datamodels that define a name more than
 once

---
 python/podio_gen/podio_config_reader.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 38d4087..74f6a4a 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -185,12 +185,24 @@ class ClassDefinitionValidator:
     @classmethod
     def validate(cls, datamodel, upstream_edm=None):
         """Validate the datamodel."""
+        cls._check_names(datamodel)
         cls._check_components(datamodel, upstream_edm)
         expose_pod_members = datamodel.options["exposePODMembers"]
         cls._check_datatypes(datamodel, expose_pod_members, upstream_edm)
         cls._check_interfaces(datamodel, upstream_edm)
         cls._check_links(datamodel, upstream_edm)
 
+    @classmethod
+    def _check_names(cls, datamodel):
+        """Check that all classes have a supported name that is only defined once."""
+        all_names = set()
+        for category in ("components", "datatypes", "interfaces", "links"):
+            for name in getattr(datamodel, category):
+                DataType(name)  # Raises an error for names that are not supported
+                if name in all_names:
+                    raise DefinitionError(f"'{name}' is defined more than once")
+                all_names.add(name)
+
     @classmethod
     def _check_comp(cls, member, components, upstream_edm):
         """Check if the passed member is a component defined in either the datamodel
-- 
2.43.0


From c0ebca1c2e85f10edae639d4094bceed15217aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 23/68] fix: reject classes that define a member name more than
 once

---
 python/podio_gen/podio_config_reader.py | 26 +++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 74f6a4a..5eec1a0 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -234,7 +234,14 @@ class ClassDefinitionValidator:
                             "Only 'declaration', 'declarationFile' and 'includes' are allowed here"
                         )
 
+            all_members = set()
             for member in component["Members"]:
+                if member.name in all_members:
+                    raise DefinitionError(
+                        f"'{member.name}' clashes with another member in component '{name}'"
+                    )
+                all_members.add(member.name)
+
                 is_builtin = member.is_builtin or member.is_builtin_array
                 is_component_array = member.is_array and cls._check_comp(
                     member.array_type, datamodel.components, upstream_edm
@@ -280,14 +287,14 @@ class ClassDefinitionValidator:
     @classmethod
     def _check_datatype(cls, classname, definition, expose_pod_members, datamodel, upstream_edm):
         """Check that a datatype only defines valid types and relations."""
-        cls._check_members(
+        all_members = cls._check_members(
             classname,
             definition.get("Members", []),
             expose_pod_members,
             datamodel,
             upstream_edm,
         )
-        cls._check_relations(classname, definition, datamodel, upstream_edm)
+        cls._check_relations(classname, definition, all_members, datamodel, upstream_edm)
 
     @classmethod
     def _check_links(cls, datamodel, upstream_edm):
@@ -345,9 +352,12 @@ class ClassDefinitionValidator:
 
                     all_members[sub_member.name] = f"member '{member.name}'"
 
+        return all_members
+
     @classmethod
-    def _check_relations(cls, classname, definition, datamodel, upstream_edm):
-        """Check the relations of a class."""
+    def _check_relations(cls, classname, definition, all_members, datamodel, upstream_edm):
+        """Check the relations of a class for undefined classes and for clashes
+        with the names of other members."""
 
         def _valid_datatype(rel_type):
             if rel_type in datamodel.datatypes or rel_type in datamodel.interfaces:
@@ -381,6 +391,14 @@ class ClassDefinitionValidator:
                     f"'{classname}' declares a invalid vector member of type '{vecmem.full_type}'"
                 )
 
+        for member in many_relations + one_relations + vector_members:
+            if member.name in all_members:
+                raise DefinitionError(
+                    f"'{member.name}' clashes with another member in class '{classname}', "
+                    f"previously defined in '{all_members[member.name]}'"
+                )
+            all_members[member.name] = classname
+
     @classmethod
     def _check_keys(cls, classname, definition):
         """Check the keys of a datatype."""
-- 
2.43.0


From 135e8fd70dd14509d330f71595c2bd64fab2be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 24/68] fix: check the members of interfaces like those of
 datatypes

---
 python/podio_gen/podio_config_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 5eec1a0..2d708a8 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -283,6 +283,7 @@ class ClassDefinitionValidator:
                 )
             cls._check_required_fields(name, definition, cls.required_interface_keys, "interface")
             cls._check_interface_types(name, definition, all_types)
+            cls._check_members(name, definition["Members"], False, datamodel, upstream_edm)
 
     @classmethod
     def _check_datatype(cls, classname, definition, expose_pod_members, datamodel, upstream_edm):
-- 
2.43.0


From 9aea26f75232d85f58738dd40965583109328588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:16 +0000
Subject: [PATCH 25/68] fix: keep empty descriptions in the embedded datamodel
 definition

---
 python/podio_gen/generator_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 327a158..21b8da5 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -158,6 +158,8 @@ class MemberVariable:
     def __init__(self, name, **kwargs):
         self.name = name
         self.full_type = kwargs.pop("type", "")
+        # An empty description is different from having none at all
+        self.has_description = "description" in kwargs
         self.description = kwargs.pop("description", "")
         self.default_val = kwargs.pop("default_val", None)
         self.unit = kwargs.pop("unit", None)
@@ -331,7 +333,7 @@ class MemberVariable:
         # The __str__ method is geared towards c++ too much, so we have to build
         # things again here from available information
         def_val = f"{{{self.default_val}}}" if self.default_val else ""
-        description = f" // {self.description}" if self.description else ""
+        description = f" // {self.description}" if self.has_description else ""
         unit = f"[{self.unit}]" if self.unit else ""
         return f"{self.full_type} {self.name}{def_val}{unit}{description}"
 
-- 
2.43.0


From d1942bca12e7e7c892ea62cd0b9f8b52f7ac9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 26/68] fix: do not silently drop parts of member definitions

---
 python/podio_gen/podio_config_reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 2d708a8..b793e85 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -36,8 +36,8 @@ class MemberParser:
     name_str = r"([a-zA-Z_]+\w*)"
     name_re = re.compile(name_str)
 
-    # Units are given in square brackets
-    unit_str = r"(?:\[([a-zA-Z_*\/^]+\w*)\])?"
+    # Units are given in square brackets and can be anything but empty
+    unit_str = r"(?:\[ *([^\[\]]*[^\[\] ]) *\])?"
     unit_re = re.compile(unit_str)
 
     # Comments can be anything after //
@@ -47,8 +47,9 @@ class MemberParser:
     array_str = rf" *std::array *< *{type_str} *, *([0-9]+) *>"
 
     # Default values can be anything that in curly braces, but not the empty
-    # default initialization, since that is what we generate in any case
-    def_val_str = r"(?:{(.+)})?"
+    # default initialization, since that is what we generate in any case. They
+    # end at the first brace after which the rest of the definition is valid
+    def_val_str = r"(?:{(.+?)})?"
 
     array_re = re.compile(array_str)
     full_array_re = re.compile(
@@ -58,14 +59,15 @@ class MemberParser:
 
     # For cases where we don't require a description
     bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str}")
-    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str}")
+    bare_array_re = re.compile(rf"{array_str} *{name_str} *{def_val_str} *{unit_str}")
 
     @staticmethod
     def _parse_with_regexps(string, regexps_callbacks):
         """Parse the string using the passed regexps and corresponding callbacks that
         take the match and return a MemberVariable from it"""
         for rgx, callback in regexps_callbacks:
-            result = rgx.match(string)
+            # Match all of the definition to not silently drop parts of it
+            result = rgx.fullmatch(string.rstrip())
             if result:
                 return callback(result)
         raise DefinitionError(
-- 
2.43.0


From 4342dd97537badd54b70f6e7ef4b61e9adef7f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 27/68] fix: make the order of generated code independent of
 the hash seed

---
 python/podio_gen/cpp_generator.py   | 8 +++-----
 python/podio_gen/julia_generator.py | 4 ++--
 python/podio_schema_evolution.py    | 9 +++++----
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 26e1b93..0f53718 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -621,11 +621,9 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         These need to be generated outside the main loop. Additionally, the
         necessary includes have to be present for the Data classes
         """
-        current_components = set(self.datamodel.components.keys())
-        previous_components = set(self.old_components.keys())
-        dropped_components = previous_components.difference(current_components)
-
-        for name in dropped_components:
+        for name in self.old_components:
+            if name in self.datamodel.components:
+                continue
             comps = sorted(self.old_components[name], key=lambda x: x["version"], reverse=True)
             most_recent_comp = comps[0]["definition"]
             most_recent_comp["class"] = DataType(name)
diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index e96ceb0..e706ee1 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -131,7 +131,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
         # Perform topological sorting using Kahn's algorithm
         sorted_components = []
         while dependencies:
-            ready = {component for component, deps in dependencies.items() if not deps}
+            ready = [component for component, deps in dependencies.items() if not deps]
             if not ready:
                 sorted_components.extend(
                     bare_types_mapping[component] for component in dependencies
@@ -143,7 +143,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
                 sorted_components.append(bare_types_mapping[component])
 
             for deps in dependencies.values():
-                deps -= ready
+                deps.difference_update(ready)
 
         # Return the Sorted Components (bare_types)
         return sorted_components
diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 55f0c14..fbcd00e 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -607,10 +607,11 @@ class DataModelComparator:
 
     @staticmethod
     def _compare_keys(keys1, keys2):
-        """compare keys of two given dicts. return added, dropped and overlapping keys"""
-        added = set(keys1).difference(keys2)
-        dropped = set(keys2).difference(keys1)
-        kept = set(keys1).intersection(keys2)
+        """compare keys of two given dicts. return added, dropped and overlapping keys
+        in the order in which they are defined"""
+        added = [k for k in keys1 if k not in keys2]
+        dropped = [k for k in keys2 if k not in keys1]
+        kept = [k for k in keys1 if k in keys2]
         return added, dropped, kept
 
     def get_changed_schemata(self, results, schema_filter=None):
-- 
2.43.0


From 4521048df501e444a1d3a4eaa6ca992665dc820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 28/68] fix: warn about potential renames of components instead
 of failing

---
 python/podio_schema_evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index fbcd00e..90cf9d1 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -442,7 +442,9 @@ class SchemaEvolutionJudge:
             for added in added_components:
                 added_members = {member.name: member for member in added.component["Members"]}
                 if set(dropped_members.keys()) == set(added_members.keys()):
-                    warnings.append(f"Potential rename of '{dropped.name}' into '{added.name}'.")
+                    warnings.append(
+                        f"Potential rename of '{dropped.klassname}' into '{added.klassname}'."
+                    )
 
         return schema_changes, warnings, errors
 
-- 
2.43.0


From 05fe548086c09e3a2d556c6effc756a4d2f8917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 29/68] fix: use every class and member for at most one rename
 in the schema comparison

---
 python/podio_schema_evolution.py | 60 ++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 90cf9d1..c78c8af 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -277,6 +277,10 @@ class SchemaEvolutionJudge:
             # Different types cannot be a simple renaming
             return self.RenameResult.NO_RENAME
 
+        if added_member not in schema_changes or dropped_member not in schema_changes:
+            # Already part of another renaming
+            return self.RenameResult.NO_RENAME
+
         for schema_change in read_schema_changes:
             if (
                 isinstance(schema_change, RenamedMember)
@@ -316,13 +320,15 @@ class SchemaEvolutionJudge:
         same_type_adds_drops = self.filter_types_with_adds_and_drops(
             added_members, dropped_members
         )
-        for added_member, dropped_member in same_type_adds_drops:
-            if (
-                self.check_rename(
-                    added_member, dropped_member, schema_changes, read_schema_changes
-                )
-                == self.RenameResult.UNHANDLED
-            ):
+        unhandled = [
+            (added_member, dropped_member)
+            for added_member, dropped_member in same_type_adds_drops
+            if self.check_rename(added_member, dropped_member, schema_changes, read_schema_changes)
+            == self.RenameResult.UNHANDLED
+        ]
+        for added_member, dropped_member in unhandled:
+            # The pairs checked later can be the actual renaming of one of the two
+            if added_member in schema_changes and dropped_member in schema_changes:
                 warnings.append(
                     f"Definition '{dropped_member.klassname}' has a potential "
                     f"rename: '{dropped_member.member.name}' -> "
@@ -409,25 +415,27 @@ class SchemaEvolutionJudge:
                     sig.add((member.name, member.full_type))
             return sig
 
-        for dropped in dropped_datatypes:
-            dropped_sig = _member_signature(dropped.datatype)
-            is_known_evolution = False
-            for added in added_datatypes:
-                if dropped_sig == _member_signature(added.datatype):
-                    for schema_change in read_schema_changes:
-                        if isinstance(schema_change, RenamedDataType) and (
-                            schema_change.name_old == dropped.klassname
-                            and schema_change.name_new == added.klassname
-                        ):
-                            schema_changes.remove(dropped)
-                            schema_changes.remove(added)
-                            schema_changes.append(schema_change)
-                            is_known_evolution = True
-                    if not is_known_evolution:
-                        renamed = RenamedDataType(dropped.klassname, added.klassname)
-                        schema_changes.remove(dropped)
-                        schema_changes.remove(added)
-                        schema_changes.append(renamed)
+        possible_renames = [
+            RenamedDataType(dropped.klassname, added.klassname)
+            for dropped in dropped_datatypes
+            for added in added_datatypes
+            if _member_signature(dropped.datatype) == _member_signature(added.datatype)
+        ]
+        known_renames = {
+            (change.name_old, change.name_new)
+            for change in read_schema_changes
+            if isinstance(change, RenamedDataType)
+        }
+        # Renames that are explicitly listed take precedence
+        possible_renames.sort(key=lambda r: (r.name_old, r.name_new) not in known_renames)
+        dropped_datatypes = {change.klassname: change for change in dropped_datatypes}
+        added_datatypes = {change.klassname: change for change in added_datatypes}
+        for renamed in possible_renames:
+            # Every datatype can only be part of one rename
+            if renamed.name_old in dropped_datatypes and renamed.name_new in added_datatypes:
+                schema_changes.remove(dropped_datatypes.pop(renamed.name_old))
+                schema_changes.remove(added_datatypes.pop(renamed.name_new))
+                schema_changes.append(renamed)
 
         # are there dropped/added component pairs that could be interpreted as rename?
         dropped_components = [
-- 
2.43.0


From 99597b8347c9df75f69ec72b2f29bd2ae6f8a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 30/68] fix: changing a member to a component type is no
 supported schema change

---
 python/podio_schema_evolution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index c78c8af..97efc34 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -382,8 +382,11 @@ class SchemaEvolutionJudge:
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
                     f" to '{change.new_member.full_type}'"
                 )
-            # changing from one component type to another component type is forbidden
-            elif change.old_member.full_type in old_datamodel.components:
+            # changing from or to a component type is forbidden
+            elif (
+                change.old_member.full_type in old_datamodel.components
+                or change.new_member.full_type in self.datamodel_new.components
+            ):
                 errors.append(
                     f"Forbidden schema change in '{change.klassname}' for "
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
-- 
2.43.0


From fbdc3957f633567fc7b9fcddd6501f16b2ddff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 31/68] fix: reject migrations without a dictionary of fields

---
 python/podio_gen/schema_evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/schema_evolution.py b/python/podio_gen/schema_evolution.py
index f481440..96c4d40 100644
--- a/python/podio_gen/schema_evolution.py
+++ b/python/podio_gen/schema_evolution.py
@@ -45,7 +45,8 @@ class SchemaMigration:
         }
 
         required = required_fields.get(self.type, [])
-        missing = [field for field in required if field not in self.details]
+        details = self.details if isinstance(self.details, dict) else {}
+        missing = [field for field in required if field not in details]
 
         if missing:
             raise ValueError(f"Change type '{self.type.value}' missing required fields: {missing}")
-- 
2.43.0


From 82523ca9cad410f1d642244f3ed8df9f213b2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 32/68] fix: find the upstream datamodel when reading old
 schema versions

---
 python/podio_gen/cpp_generator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 0f53718..807f803 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -671,13 +671,20 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         reader = PodioConfigReader()
         # Read the current model again into a "new" namespace to have it more
         # easily discerned from the "old" model
-        datamodel_new = reader.read(self.yamlfile, package_name="new")
+        datamodel_new = reader.read(
+            self.yamlfile, package_name="new", upstream_edm=self.upstream_edm
+        )
         comparator = DataModelComparator(datamodel_new)
         judge = SchemaEvolutionJudge(comparator.datamodel_new, evolution_file=self.evolution_file)
 
         # Process each old schema version
         for old_yamlfile in self.old_yamlfiles:
-            datamodel_old = reader.read(old_yamlfile, package_name="old", ignore_extracode=True)
+            datamodel_old = reader.read(
+                old_yamlfile,
+                package_name="old",
+                upstream_edm=self.upstream_edm,
+                ignore_extracode=True,
+            )
             detected_changes = comparator.compare(datamodel_old)
             comparison_results = judge.judge(datamodel_old, detected_changes)
 
-- 
2.43.0


From 1b7b30ee1ab8e409bf3f232594a941103b9a836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 33/68] fix: compare generated files as bytes, an interrupted
 run can leave invalid text behind

---
 python/podio_gen/generator_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/podio_gen/generator_base.py b/python/podio_gen/generator_base.py
index 57879b3..f2a1244 100644
--- a/python/podio_gen/generator_base.py
+++ b/python/podio_gen/generator_base.py
@@ -39,9 +39,10 @@ def write_file_if_changed(filename, content, force_write=False):
     """Write the file contents only if it has changed or if the file does not exist
     yet. Return whether the file has been written or not"""
     try:
-        with open(filename, "r", encoding="utf-8") as infile:
-            existing_content = infile.read()
-            changed = existing_content != content
+        # Compare the bytes, the existing file may not be valid text, e.g. if a
+        # previous run was interrupted while writing it
+        with open(filename, "rb") as infile:
+            changed = infile.read() != content.encode("utf-8")
     except FileNotFoundError:
         changed = True
 
-- 
2.43.0


From 77c372303091b63b97f1b462ea405e05fee7af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 34/68] fix: include what the old versions of a component need

---
 python/podio_gen/cpp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 807f803..39d948f 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -650,13 +650,13 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         versions of it"""
         includes = set(self._get_member_includes(component["Members"]))
         includes.update(component.get("ExtraCode", {}).get("includes", "").split("\n"))
-        component["includes"] = self._sort_includes(includes)
 
         # Add old versions **even if they are identical**
         component["old_versions"] = old_comp_versions
         # update includes if necessary
         for old_comp in old_comp_versions:
             includes.update(self._get_member_includes(old_comp["definition"]["Members"]))
+        component["includes"] = self._sort_includes(includes)
 
         self._fill_templates("Component", component)
 
-- 
2.43.0


From 74bad70a1dae74e864ba4fe1163d553fb32ac421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 35/68] fix: old versions of components hold the same version
 of other components

---
 python/templates/Component.h.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/templates/Component.h.jinja2 b/python/templates/Component.h.jinja2
index 19a9e7b..7d044e0 100644
--- a/python/templates/Component.h.jinja2
+++ b/python/templates/Component.h.jinja2
@@ -49,7 +49,7 @@ namespace v{{ old_version.version }} {
 class {{ class.bare_type }} {
 public:
 {% for member in old_version.definition.Members %}
-  {{ member }}
+  {{ member.qualified_as_version(old_version.version) }}
 {% endfor %}
 };
 
-- 
2.43.0


From a24003b8d0bc5244a401396b092109d9159285d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 36/68] fix: find the buffers of renamed datatypes in
 namespaces

---
 python/podio_gen/cpp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 39d948f..966d3f8 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -639,7 +639,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
                     old_def = change["definition"].copy()
                     old_def["renamed_to"] = change["schema_change"].name_new
                     old_def["renamed_to_collection"] = (
-                        str(DataType(change["schema_change"].name_new)) + "Collection"
+                        DataType(change["schema_change"].name_new).full_type + "Collection"
                     )
                     old_def["renamed_from_version"] = change["version"]
                     self._process_datatype(name, old_def)
-- 
2.43.0


From ff065fc426aa71d976c870009ff0d10be3b8b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 37/68] fix: renamed datatypes can be read from all versions
 with the old name

---
 python/podio_gen/cpp_generator.py     | 22 ++++++++++++----------
 python/templates/Collection.cc.jinja2 | 14 ++++++++------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 966d3f8..d49ec5e 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -634,16 +634,18 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         """Generate code for datatypes that have been renamed, so that their old
         versioned data classes are available in the new dictionary for ROOT"""
         for name, changes in self.changed_datatypes.items():
-            for change in changes:
-                if isinstance(change["schema_change"], RenamedDataType):
-                    old_def = change["definition"].copy()
-                    old_def["renamed_to"] = change["schema_change"].name_new
-                    old_def["renamed_to_collection"] = (
-                        DataType(change["schema_change"].name_new).full_type + "Collection"
-                    )
-                    old_def["renamed_from_version"] = change["version"]
-                    self._process_datatype(name, old_def)
-                    break
+            renames = [c for c in changes if isinstance(c["schema_change"], RenamedDataType)]
+            if not renames:
+                continue
+            # The most recent version is the one that the class is generated for
+            change = max(renames, key=lambda c: c["version"])
+            old_def = change["definition"].copy()
+            old_def["renamed_to"] = change["schema_change"].name_new
+            old_def["renamed_to_collection"] = (
+                DataType(change["schema_change"].name_new).full_type + "Collection"
+            )
+            old_def["renamed_from_versions"] = sorted(c["version"] for c in renames)
+            self._process_datatype(name, old_def)
 
     def _generate_component_code(self, component, old_comp_versions):
         """Generate the component code for a given component definition and old
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index e68e5bd..5bba321 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -244,12 +244,14 @@ bool register{{ class.bare_type }}Collection() {
 {% endif %}
 {% if renamed_to_collection is defined %}
     // Schema Evolution for renamed datatypes: register old type buffers as new type
-    factory.registerCreationFunc("{{ class.full_type }}Collection", {{ renamed_from_version }},
-      [](bool isSubset) {
-        return *podio::CollectionBufferFactory::instance().createBuffers(
-           "{{ renamed_to_collection }}", 1, isSubset);
-      }
-    );
+    for (const auto schemaVersion : { {{ renamed_from_versions | join(", ") }} }) {
+      factory.registerCreationFunc("{{ class.full_type }}Collection", schemaVersion,
+        [](bool isSubset) {
+          return *podio::CollectionBufferFactory::instance().createBuffers(
+             "{{ renamed_to_collection }}", 1, isSubset);
+        }
+      );
+    }
 {% endif %}
 
     return true;
-- 
2.43.0


From 7a31f84ee8f88dc06a1fc8456fe03dcefc47737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 38/68] fix: old versions can have members of upstream
 component types

---
 python/podio_gen/cpp_generator.py   | 6 ++++++
 python/podio_gen/generator_utils.py | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index d49ec5e..124b47e 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -615,6 +615,12 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             for name, datatype_def in old_model.datatypes.items():
                 self.old_datatypes[name].append({"version": version, "definition": datatype_def})
 
+            if self.upstream_edm:
+                old_defs = [*old_model.components.values(), *old_model.datatypes.values()]
+                for member in (m for d in old_defs for m in d["Members"]):
+                    member_type = member.array_type if member.is_array else member.full_type
+                    member.is_upstream = member_type in self.upstream_edm.components
+
     def _identify_dropped_components(self):
         """Identify components that have been dropped
 
diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 21b8da5..9ebecf4 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -177,6 +177,7 @@ class MemberVariable:
         self.includes = set()
         self.jl_imports = set()
         self.interface_types = []  # populated in the generator script if necessary
+        self.is_upstream = False  # set in the generator script if necessary
 
         if kwargs:
             raise ValueError(f"Unused kwargs in MemberVariable: {list(kwargs.keys())}")
@@ -259,9 +260,10 @@ class MemberVariable:
     def qualified_as_version(self, version):
         """String representation with a potential intermediate version namespace
         Only applies in case the member is a component, as builtin variables are
-        considered not versionable
+        considered not versionable. The same goes for components from an upstream
+        datamodel, because these follow the versions of that datamodel
         """
-        if self.is_builtin:
+        if self.is_builtin or self.is_upstream:
             return str(self)
 
         if self.is_array:
-- 
2.43.0


From abb1f27f4a8ed1733cd8d4fb8fe37d35a330aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 39/68] fix: write empty user data and vector members to SIO
 without accessing their first element

---
 include/podio/SIOBlockUserData.h         | 4 ++--
 python/templates/macros/sioblocks.jinja2 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/podio/SIOBlockUserData.h b/include/podio/SIOBlockUserData.h
index 0c47c9b..7816282 100644
--- a/include/podio/SIOBlockUserData.h
+++ b/include/podio/SIOBlockUserData.h
@@ -50,14 +50,14 @@ public:
     unsigned size(0);
     device.data(size);
     dataVec->resize(size);
-    podio::handlePODDataSIO(device, &(*dataVec)[0], size);
+    podio::handlePODDataSIO(device, dataVec->data(), size);
   }
 
   void write(sio::write_device& device) override {
     auto* dataVec = m_writeBuffers.template dataAsVector<BasicType>();
     unsigned size = dataVec->size();
     device.data(size);
-    podio::handlePODDataSIO(device, &(*dataVec)[0], size);
+    podio::handlePODDataSIO(device, dataVec->data(), size);
   }
 
   SIOBlock* create(const std::string& name) const override {
diff --git a/python/templates/macros/sioblocks.jinja2 b/python/templates/macros/sioblocks.jinja2
index e3893b1..66e99ca 100644
--- a/python/templates/macros/sioblocks.jinja2
+++ b/python/templates/macros/sioblocks.jinja2
@@ -2,7 +2,7 @@
     auto* vec{{ index }} = *reinterpret_cast<std::vector<{{ member.full_type }}>**>(vecMemInfo->at({{ index }}).second);
     size = vec{{ index }}->size();
     device.data(size);
-    podio::handlePODDataSIO(device, &(*vec{{ index }})[0], size);
+    podio::handlePODDataSIO(device, vec{{ index }}->data(), size);
 
 {% endmacro %}
 
-- 
2.43.0


From 67b3d3bb626bb0b4a4ac38b567e44746a4810731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 40/68] fix: makeWriter writes .sio files with the SIO writer
 and refuses other endings whatever the type

---
 src/Writer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Writer.cc b/src/Writer.cc
index 84bd82a..cb87f7c 100644
--- a/src/Writer.cc
+++ b/src/Writer.cc
@@ -32,9 +32,11 @@ Writer makeWriter(const std::string& filename, const std::string& type) {
     defaultTypeRNTuple = true;
   }
 
-  if ((type == "default" && !defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "root") {
+  // The type only switches between the backends for .root files
+  const bool isRoot = endsWith(filename, ".root");
+  if (isRoot && ((type == "default" && !defaultTypeRNTuple) || lower(type) == "root")) {
     return Writer{std::make_unique<ROOTWriter>(filename)};
-  } else if ((type == "default" && defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "rntuple") {
+  } else if (isRoot && ((type == "default" && defaultTypeRNTuple) || lower(type) == "rntuple")) {
 #if PODIO_ENABLE_RNTUPLE
     return Writer{std::make_unique<RNTupleWriter>(filename)};
 #else
-- 
2.43.0


From 5d7634e6e0687edf6b36438929894a673c759743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 41/68] fix: an SIOReader can open another file

---
 src/SIOReader.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SIOReader.cc b/src/SIOReader.cc
index cac3d3a..a303f8e 100644
--- a/src/SIOReader.cc
+++ b/src/SIOReader.cc
@@ -15,6 +15,13 @@ SIOReader::SIOReader() {
 }
 
 void SIOReader::openFile(const std::string& filename) {
+  // Start from scratch in case another file has been opened before. An open
+  // stream cannot be opened again.
+  m_stream = sio::ifstream{};
+  m_nameCtr.clear();
+  m_tocRecord = SIOFileTOCRecord{};
+  m_datamodelHolder = DatamodelDefinitionHolder{};
+  m_availableCategories.clear();
   m_stream.open(filename, std::ios::binary);
   if (!m_stream.is_open()) {
     throw std::runtime_error("File " + filename + " couldn't be opened");
-- 
2.43.0


From 4efc11ab6dd29dc259f14fcaeb9bb86f19ff91e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 42/68] fix: reading an entry whose index does not fit into 32
 bits does not give another one

---
 include/podio/Reader.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/podio/Reader.h b/include/podio/Reader.h
index 7d1f458..dbf78a7 100644
--- a/include/podio/Reader.h
+++ b/include/podio/Reader.h
@@ -5,6 +5,8 @@
 #include "podio/podioVersion.h"
 #include "podio/utilities/ReaderUtils.h"
 
+#include <utility>
+
 namespace podio {
 
 /// Generic (type erased) reader class that can handle different I/O backends
@@ -55,9 +57,12 @@ private:
     }
 
     podio::Frame readFrame(std::string_view name, size_t index, const std::vector<std::string>& collsToRead) override {
-      auto maybeFrame = m_reader->readEntry(name, index, collsToRead);
-      if (maybeFrame) {
-        return maybeFrame;
+      // The readers take the index as a smaller type, make sure that it fits
+      if (std::in_range<unsigned>(index)) {
+        auto maybeFrame = m_reader->readEntry(name, index, collsToRead);
+        if (maybeFrame) {
+          return maybeFrame;
+        }
       }
       throw std::runtime_error("Failed reading category " + std::string(name) + " at frame " + std::to_string(index) +
                                " (reading beyond bounds?)");
-- 
2.43.0


From a33e1fa28cf96ac41cd144c04593651d61342b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 43/68] fix: podio-dump rejects ranges of entries that end
 before they start

---
 tools/src/podio-dump-tool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/src/podio-dump-tool.cpp b/tools/src/podio-dump-tool.cpp
index 3349c08..0c4a17d 100644
--- a/tools/src/podio-dump-tool.cpp
+++ b/tools/src/podio-dump-tool.cpp
@@ -91,6 +91,9 @@ std::vector<size_t> parseEventRange(const std::string_view evtRange) {
     } else if (std::ranges::distance(colonSplitRange) == 2 && !(*nextIt).empty()) {
       size_t start = parseSizeOrExit(*it);
       size_t stop = parseSizeOrExit(*nextIt);
+      if (stop < start) {
+        parseError();
+      }
       std::vector<size_t> events(stop - start + 1);
       std::iota(events.begin(), events.end(), start);
       return events;
-- 
2.43.0


From a3ef644c7ce1e2dea6d0f9a4d4dcc9944fe7b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 44/68] fix: patterns with braces that match nothing are
 reported as such

---
 src/Glob.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Glob.cc b/src/Glob.cc
index 25d634b..3c35c09 100644
--- a/src/Glob.cc
+++ b/src/Glob.cc
@@ -34,7 +34,12 @@ int glob_err_handler(const char* epath, int eerrno) {
 
 std::vector<std::string> expand_glob(const std::string& pattern) {
   glob_t glob_result;
-  auto retv = glob(pattern.c_str(), GLOB_TILDE | GLOB_BRACE | GLOB_NOMAGIC, glob_err_handler, &glob_result);
+  int flags = GLOB_TILDE | GLOB_BRACE;
+  if (!is_glob_pattern(pattern)) {
+    // Not for patterns, as GLOB_NOMAGIC does not consider braces to be wildcards
+    flags |= GLOB_NOMAGIC;
+  }
+  auto retv = glob(pattern.c_str(), flags, glob_err_handler, &glob_result);
   if (retv == GLOB_NOMATCH) {
     throw std::runtime_error("Glob expansion found no matches for pattern: " + pattern);
   } else if (retv != 0) {
-- 
2.43.0


From 82c38d6f7257e38d0cb33791e7d962b749691200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 45/68] fix: look for SIOBlocks libraries in all directories of
 PODIO_SIOBLOCK_PATH

---
 src/SIOBlock.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SIOBlock.cc b/src/SIOBlock.cc
index b8e10cf..80ffb7f 100644
--- a/src/SIOBlock.cc
+++ b/src/SIOBlock.cc
@@ -158,11 +158,12 @@ std::vector<std::tuple<std::string, std::string>> SIOBlockLibraryLoader::getLibN
         libs.emplace_back(std::move(filename), dir);
       }
     }
-    if (std::getenv("PODIO_SIOBLOCK_PATH") && libs.empty()) {
-      throw std::runtime_error(
-          "No SIOBlocks libraries found in PODIO_SIOBLOCK_PATH. Please set PODIO_SIOBLOCK_PATH to the directory "
-          "containing the SIOBlocks libraries or unset it to fallback to LD_LIBRARY_PATH.");
-    }
+  }
+
+  if (std::getenv("PODIO_SIOBLOCK_PATH") && libs.empty()) {
+    throw std::runtime_error(
+        "No SIOBlocks libraries found in PODIO_SIOBLOCK_PATH. Please set PODIO_SIOBLOCK_PATH to the directory "
+        "containing the SIOBlocks libraries or unset it to fallback to LD_LIBRARY_PATH.");
   }
 
   return libs;
-- 
2.43.0


From 44767ec0da3a8fe52a5377e209d71789caa54619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 46/68] fix: skip files in the search path for SIOBlocks
 libraries

---
 src/SIOBlock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SIOBlock.cc b/src/SIOBlock.cc
index 80ffb7f..eed5445 100644
--- a/src/SIOBlock.cc
+++ b/src/SIOBlock.cc
@@ -148,7 +148,7 @@ std::vector<std::tuple<std::string, std::string>> SIOBlockLibraryLoader::getLibN
   std::string dir;
   std::istringstream stream(ldLibPath);
   while (std::getline(stream, dir, ':')) {
-    if (not fs::exists(dir)) {
+    if (not fs::is_directory(dir)) {
       continue;
     }
 
-- 
2.43.0


From 8b1aa9fbf5b9e163a0a201386ff56dbe057a953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 47/68] fix: preparing a collection for writing can be tried
 again after it failed

---
 python/templates/CollectionData.cc.jinja2 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 0452da5..caacd00 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -141,7 +141,9 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
     return;
   }
 
-  // Normal collections have to store the data and all the relations
+  // Normal collections have to store the data and all the relations. Make sure
+  // to start from empty buffers, even if an earlier attempt has failed
+  m_data->clear();
   m_data->reserve(entries.size());
   for (const auto& obj : entries) { m_data->push_back(obj->data); }
 
@@ -151,6 +153,7 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
 {% for member in VectorMembers %}
 const auto {{ member.name }}_size = std::accumulate(entries.begin(), entries.end(), 0,
   [](size_t sum, const {{ class.bare_type }}Obj* obj) { return sum + obj->m_{{ member.name }}->size(); });
+  m_vec_{{ member.name }}->clear();
   m_vec_{{ member.name }}->reserve({{ member.name }}_size);
   int {{ member.name }}_index = 0;
 {% endfor %}
-- 
2.43.0


From 9ccb37ad357646ac71c84ccde6f6723a15724894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 48/68] fix: refuse to write collections to SIO that are not
 available in the Frame

---
 src/SIOWriter.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index 87e50e6..212c8fb 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -6,6 +6,7 @@
 #include "sioUtils.h"
 
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace podio {
@@ -37,8 +38,14 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   std::vector<sio_utils::StoreCollection> collections;
   collections.reserve(collsToWrite.size());
   for (const auto& name : collsToWrite) {
-    collections.emplace_back(name, frame.getCollectionForWrite(name));
-    m_datamodelCollector.registerDatamodelDefinition(collections.back().second, name);
+    const auto* coll = frame.getCollectionForWrite(name);
+    if (!coll) {
+      // Make sure all collections that we want to write are actually available
+      throw std::runtime_error("Collection '" + name + "' in category '" + std::string(category) +
+                               "' is not available in Frame");
+    }
+    collections.emplace_back(name, coll);
+    m_datamodelCollector.registerDatamodelDefinition(coll, name);
   }
 
   // Write necessary metadata and the actual data into two different records.
-- 
2.43.0


From bf520efeb7015da1c62036187344d13f1f7fbe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 49/68] fix: do not leave half a Frame in an SIO file if it
 cannot be written

---
 src/SIOWriter.cc | 7 ++++++-
 src/sioUtils.h   | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index 212c8fb..a2b0d67 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -45,6 +45,12 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
                                "' is not available in Frame");
     }
     collections.emplace_back(name, coll);
+  }
+
+  // Make sure that everything can be written before writing anything, otherwise
+  // a header record without the corresponding data record would remain
+  const auto blocks = sio_utils::createBlocks(collections, frame.getParameters());
+  for (const auto& [name, coll] : collections) {
     m_datamodelCollector.registerDatamodelDefinition(coll, name);
   }
 
@@ -56,7 +62,6 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   tableBlocks.emplace_back(sio_utils::createCollIDBlock(collections, frame.getCollectionIDTableForWrite()));
   m_tocRecord.addRecord(catStr, sio_utils::writeRecord(tableBlocks, catStr + "_HEADER", m_stream));
 
-  const auto blocks = sio_utils::createBlocks(collections, frame.getParameters());
   sio_utils::writeRecord(blocks, catStr, m_stream);
 }
 
diff --git a/src/sioUtils.h b/src/sioUtils.h
index 352a338..bfa0eed 100644
--- a/src/sioUtils.h
+++ b/src/sioUtils.h
@@ -9,6 +9,8 @@
 #include <sio/compression/zlib.h>
 #include <sio/definitions.h>
 
+#include <stdexcept>
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -72,7 +74,12 @@ namespace sio_utils {
     blocks.emplace_back(std::move(paramBlock));
 
     for (const auto& [name, col] : collections) {
-      blocks.emplace_back(podio::SIOBlockFactory::instance().createBlock(col, name));
+      auto block = podio::SIOBlockFactory::instance().createBlock(col, name);
+      if (!block) {
+        throw std::runtime_error("No SIOBlock available to write collection '" + name + "' of type '" +
+                                 std::string(col->getTypeName()) + "'");
+      }
+      blocks.emplace_back(std::move(block));
     }
 
     return blocks;
-- 
2.43.0


From 8de178f2cc07acd40239af695c8176fcf02767c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 50/68] fix: report when an SIO file cannot be written
 completely

---
 src/SIOWriter.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index a2b0d67..a715770 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -5,6 +5,8 @@
 #include "podio/utilities/DatamodelRegistryIOHelpers.h"
 #include "sioUtils.h"
 
+#include <exception>
+#include <iostream>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -26,7 +28,12 @@ SIOWriter::SIOWriter(const std::string& filename) {
 }
 
 SIOWriter::~SIOWriter() {
-  finish();
+  try {
+    finish();
+  } catch (const std::exception& e) {
+    // Must not let exceptions escape from here
+    std::cerr << "ERROR while finishing SIO file: " << e.what() << std::endl;
+  }
 }
 
 void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category) {
@@ -101,6 +108,10 @@ void SIOWriter::finish() {
   m_stream.write(reinterpret_cast<char*>(&finalWords), sizeof(finalWords));
 
   m_stream.close();
+  if (!m_stream) {
+    // Some of the buffered data might only have been written now
+    throw std::runtime_error("Couldn't write the complete SIO file");
+  }
 }
 
 } // namespace podio
-- 
2.43.0


From 2d920ea9fa3d7f398a3ac5cf514fbf299d4c6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 51/68] fix: units cannot span lines

---
 python/podio_gen/podio_config_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index b793e85..53619f9 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -37,7 +37,7 @@ class MemberParser:
     name_re = re.compile(name_str)
 
     # Units are given in square brackets and can be anything but empty
-    unit_str = r"(?:\[ *([^\[\]]*[^\[\] ]) *\])?"
+    unit_str = r"(?:\[ *([^\[\]\n]*[^\[\]\n ]) *\])?"
     unit_re = re.compile(unit_str)
 
     # Comments can be anything after //
-- 
2.43.0


From afba6214ed5459023d7daaa643eb88822b9a14d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 52/68] fix: descriptions do not end or extend the comments
 they are put into

---
 python/podio_gen/generator_utils.py         | 3 ++-
 python/templates/macros/declarations.jinja2 | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 9ebecf4..55afcc9 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -228,7 +228,8 @@ class MemberVariable:
             docstring = rf"{self.description} [{self.unit}]"
         else:
             docstring = self.description
-        return docstring
+        # A backslash at the end would make the next line a part of the comment
+        return docstring.rstrip("\\")
 
     def __str__(self):
         """string representation"""
diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 06e6a32..f719edc 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -1,7 +1,7 @@
 {% macro class_description(type, description, author, prefix='', postfix='') %}
 /** @class {{ prefix }}{{ type }}{{ postfix }}
- *  {{ description }}
- *  @author: {{ author }}
+ *  {{ description | replace('*/', '* /') }}
+ *  @author: {{ author | replace('*/', '* /') }}
  */
 {%- endmacro %}
 
@@ -110,7 +110,7 @@
 
 {% macro single_relation_getters(relations, get_syntax) %}
 {% for relation in relations %}
-  /// Access the {{ relation.description }}
+  /// Access the {{ relation.docstring }}
   const {{ relation.full_type }} {{ relation.getter_name(get_syntax) }}() const;
 {% endfor %}
 {%- endmacro %}
@@ -118,7 +118,7 @@
 
 {% macro single_relation_setters(relations, get_syntax) %}
 {% for relation in relations %}
-  /// Set the {{ relation.description }}
+  /// Set the {{ relation.docstring }}
   void {{ relation.setter_name(get_syntax) }}(const {{ relation.full_type }}& value);
 {% endfor %}
 {%- endmacro %}
-- 
2.43.0


From 881f57f77755faad838191ef649bcb37aed87f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 53/68] fix: Read and write array members of Arrow tables at
 the right index

Arrays of components were filled from the index of the collection element
instead of the position in the flat array of values, nested arrays shadowed
each others loop index and arrays in other than the first row of a table were
read from the first row.
---
 python/templates/ArrowMapper.cc.jinja2 | 13 ++++++++-----
 python/templates/macros/arrow.jinja2   |  7 ++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/python/templates/ArrowMapper.cc.jinja2 b/python/templates/ArrowMapper.cc.jinja2
index 154a617..03a5dab 100644
--- a/python/templates/ArrowMapper.cc.jinja2
+++ b/python/templates/ArrowMapper.cc.jinja2
@@ -54,14 +54,17 @@ auto arr_{{ path_prefix }}{{ member.name }} = std::static_pointer_cast<{{ array_
 
 {% macro read_member(member, obj_expr, path_prefix, index_var='i') -%}
 {% if member.is_array -%}
-for (size_t arr_i = 0; arr_i < {{ member.array_size }}; ++arr_i) {
+{# The values of all arrays are in one flat values array, in which the ones of this array start at value_offset #}
+{% set elem_idx = 'arr_i_' + path_prefix + member.name -%}
+{% set value_idx = 'val_i_' + path_prefix + member.name -%}
+for (size_t {{ elem_idx }} = 0; {{ elem_idx }} < {{ member.array_size }}; ++{{ elem_idx }}) {
+  const int64_t {{ value_idx }} = arr_{{ path_prefix }}{{ member.name }}->value_offset({{ index_var }}) + {{ elem_idx }};
+{% set value = (obj_expr + '.' + member.name + '[' + elem_idx + ']') -%}
 {% if member.value_builder.is_primitive -%}
-{% set value = (obj_expr + '.' + member.name + '[arr_i]') -%}
-  {{ value }} = arr_{{ path_prefix }}{{ member.name }}_val->Value({{ index_var }} * {{ member.array_size }} + arr_i);
+  {{ value }} = arr_{{ path_prefix }}{{ member.name }}_val->Value({{ value_idx }});
 {% else -%}
-{% set sub_obj = (obj_expr + '.' + member.name + '[arr_i]') -%}
 {% for child in member.value_builder.children -%}
-{{ read_member(child, sub_obj, path_prefix + member.name + '_val_', index_var) | indent(2, first=True) }}
+{{ read_member(child, value, path_prefix + member.name + '_val_', value_idx) | indent(2, first=True) }}
 {% endfor -%}
 {% endif -%}
 }
diff --git a/python/templates/macros/arrow.jinja2 b/python/templates/macros/arrow.jinja2
index 516caea..b834b8d 100644
--- a/python/templates/macros/arrow.jinja2
+++ b/python/templates/macros/arrow.jinja2
@@ -67,13 +67,14 @@ auto* builder_{{ relation.name }}_index = static_cast<arrow::Int32Builder*>(buil
 {% macro append_member(member, obj_expr, path_prefix, is_direct=true) -%}
 {% if member.is_array -%}
 checkStatus(builder_{{ path_prefix }}{{ member.name }}->Append(), "Failed to append fixed_size_list");
-for (size_t arr_i = 0; arr_i < {{ member.array_size }}; ++arr_i) {
+{% set elem_idx = 'arr_i_' + path_prefix + member.name -%}
+for (size_t {{ elem_idx }} = 0; {{ elem_idx }} < {{ member.array_size }}; ++{{ elem_idx }}) {
 {% if member.value_builder.is_primitive -%}
-{% set value = (obj_expr + '.' + member.getter + '(arr_i)') if is_direct else (obj_expr + '.' + member.name + '[arr_i]') -%}
+{% set value = (obj_expr + '.' + member.getter + '(' + elem_idx + ')') if is_direct else (obj_expr + '.' + member.name + '[' + elem_idx + ']') -%}
   checkStatus(builder_{{ path_prefix }}{{ member.name }}_val->Append({{ value }}), "Failed to append array element");
 {% else -%}
   checkStatus(builder_{{ path_prefix }}{{ member.name }}_val->Append(), "Failed to append struct in array");
-{% set sub_obj = (obj_expr + '.' + member.getter + '(arr_i)') if is_direct else (obj_expr + '.' + member.name + '[arr_i]') -%}
+{% set sub_obj = (obj_expr + '.' + member.getter + '(' + elem_idx + ')') if is_direct else (obj_expr + '.' + member.name + '[' + elem_idx + ']') -%}
 {% for child in member.value_builder.children -%}
 {{ append_member(child, sub_obj, path_prefix + member.name + '_val_', is_direct=false) | indent(2, first=True) }}
 {% endfor -%}
-- 
2.43.0


From 2ae9f2d6c396a1f907c7b81acd2702b969462637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 54/68] fix: Do not list unpacked collections as available in
 ArrowFrameData

Frame::getAvailableCollections returned collections twice once they had been
read.
---
 src/ArrowFrameData.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ArrowFrameData.cc b/src/ArrowFrameData.cc
index 8848a9c..d0be9cc 100644
--- a/src/ArrowFrameData.cc
+++ b/src/ArrowFrameData.cc
@@ -132,7 +132,12 @@ std::optional<podio::CollectionReadBuffers> ArrowFrameData::getCollectionBuffers
     throw std::runtime_error("No Arrow reader registered for type: " + typeName);
   }
 
-  return reader(chunk, remaining_idx, isSubset, schemaVersion);
+  auto buffers = reader(chunk, remaining_idx, isSubset, schemaVersion);
+  if (buffers) {
+    // Only collections that have not been unpacked yet are still available
+    std::erase(m_availableCollections, name);
+  }
+  return buffers;
 }
 
 std::unique_ptr<podio::GenericParameters> ArrowFrameData::getParameters() {
-- 
2.43.0


From 6a7850fcd57e66106fba160c3ffeb798f88ca4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 55/68] fix: Refuse to write a collection with the name of the
 parameters column

An Arrow table with two columns of the same name can not be read back, both
the collection and the frame parameters are lost silently.
---
 src/ArrowFrameConverter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArrowFrameConverter.cc b/src/ArrowFrameConverter.cc
index c6edbdd..2f84796 100644
--- a/src/ArrowFrameConverter.cc
+++ b/src/ArrowFrameConverter.cc
@@ -110,6 +110,9 @@ std::shared_ptr<arrow::Table> convertFrameToTable(const podio::Frame& frame,
   arrays.reserve(collsToWrite.size() + 1);
 
   for (const auto& collName : collsToWrite) {
+    if (collName == "frame_parameters") {
+      throw std::runtime_error("Collection name '" + collName + "' is reserved for the column of the Frame parameters");
+    }
     const auto* coll = frame.getCollectionForWrite(collName);
     if (!coll) {
       throw std::runtime_error("Collection '" + collName + "' not found in Frame");
-- 
2.43.0


From bca17d5f5c8489cd2bf6eaa3db3a94831b2f69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 56/68] fix: Map unsigned and arrays of fixed width integers to
 the right Julia types

---
 python/podio_gen/generator_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 55afcc9..31154f2 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -40,6 +40,7 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
         "bool": "Bool",
         "long": "Int64",
         "unsigned int": "UInt32",
+        "unsigned": "UInt32",
         "unsigned long": "UInt64",
         "char": "Char",
         "short": "Int16",
@@ -61,10 +62,11 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
             return cpp_type
 
     else:
+        is_builtin = array_type in builtin_types_map or _is_fixed_width_type(array_type)
         array_type = get_julia_type(array_type)
         if "::" in array_type:
             array_type = array_type.split("::")[1]
-        if array_type not in builtin_types_map.values():
+        if not is_builtin:
             array_type = array_type + "Struct"
         return f"MVector{{{array_size}, {array_type}}}"
 
-- 
2.43.0


From 17c5860e1e3dc97cf40254768a1c797dc6a64718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 57/68] fix: Include the files of a Julia module in the order
 in which they need each other

---
 python/podio_gen/julia_generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index e706ee1..1fe5195 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -115,6 +115,8 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
             if "Members" in component_data:
                 for member_data in component_data["Members"]:
                     member_full_type = member_data.full_type
+                    if member_data.is_array:
+                        member_full_type = member_data.array_type
                     if not member_data.is_builtin and not member_data.is_builtin_array:
                         dependencies[full_type].add(member_full_type)
 
@@ -128,6 +130,10 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
                     ):
                         dependencies[full_type].add(vector_member_full_type)
 
+        # Types of the upstream datamodel are not part of this module
+        for deps in dependencies.values():
+            deps.intersection_update(bare_types_mapping)
+
         # Perform topological sorting using Kahn's algorithm
         sorted_components = []
         while dependencies:
-- 
2.43.0


From 02b0f1073af090489bd4bde08687be265def7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 58/68] fix: Leave out Julia datatypes with relations to
 datatypes that are left out

---
 python/podio_gen/julia_generator.py | 31 +++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index 1fe5195..c1945f3 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -55,12 +55,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
 
     def do_process_datatype(self, _, datatype):
         """Do the julia specific processing for a datatype"""
-        if any(
-            self._is_in(r.full_type, "interfaces")
-            for r in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]
-        ):
-            # Julia doesn't support any interfaces yet, so we have to also sort out
-            # all the datatypes that use them
+        if datatype["class"].full_type in self._unsupported_datatypes():
             return None
 
         datatype["params_jl"] = sorted(self._get_julia_params(datatype), key=lambda x: x[0])
@@ -78,6 +73,30 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
         """Julia does not support link types yet, so this does nothing"""
         return None
 
+    def _unsupported_datatypes(self):
+        """Get the names of all datatypes that cannot be generated for Julia, because
+        they have relations to interfaces, which are not supported yet, or to
+        another datatype that cannot be generated
+        """
+        datatypes = dict(self.datamodel.datatypes)
+        if self.upstream_edm:
+            datatypes.update(self.upstream_edm.datatypes)
+
+        unsupported = set()
+        while True:
+            dependent = {
+                name
+                for name, datatype in datatypes.items()
+                if name not in unsupported
+                and any(
+                    r.full_type in unsupported or self._is_in(r.full_type, "interfaces")
+                    for r in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]
+                )
+            }
+            if not dependent:
+                return unsupported
+            unsupported |= dependent
+
     def get_upstream_name(self):
         """Get the name of the upstream datamodel if any"""
         if self.upstream_edm:
-- 
2.43.0


From 6b807955ceda38a92dea5d755ff1183ba369984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 59/68] fix: ROOTReader gets all branches again when the chain
 has gone to another tree

Only the branches of the collections that were read right after the switch
were taken from the new tree. Reading others from it later used branches that
do not exist any longer.
---
 include/podio/ROOTReader.h | 12 ++++---
 src/ROOTReader.cc          | 73 +++++++++++++++++++-------------------
 2 files changed, 45 insertions(+), 40 deletions(-)

diff --git a/include/podio/ROOTReader.h b/include/podio/ROOTReader.h
index 1286900..ab9b37a 100644
--- a/include/podio/ROOTReader.h
+++ b/include/podio/ROOTReader.h
@@ -129,6 +129,7 @@ private:
                                                             ///< category
     std::vector<root_utils::CollectionBranches> branches{}; ///< The branches for this category
     std::shared_ptr<CollectionIDTable> table{nullptr};      ///< The collection ID table for this category
+    int treeNumber{-1};                                     ///< The tree of the chain the branches belong to
   };
 
   /// Initialize the passed CategoryInfo by setting up the necessary branches,
@@ -142,11 +143,14 @@ private:
   CategoryInfo& getCategoryInfo(std::string_view name);
 
   /// Read the parameters for the entry specified in the passed CategoryInfo
-  GenericParameters readEntryParameters(CategoryInfo& catInfo, bool reloadBranches, unsigned int localEntry);
+  GenericParameters readEntryParameters(CategoryInfo& catInfo, unsigned int localEntry);
 
   template <typename T>
-  static void readParams(CategoryInfo& catInfo, podio::GenericParameters& params, bool reloadBranches,
-                         unsigned int localEntry);
+  static void readParams(CategoryInfo& catInfo, podio::GenericParameters& params, unsigned int localEntry);
+
+  /// Get all branches again in case the chain has gone to another tree, because
+  /// that invalidates the ones from the tree before
+  void updateBranches(CategoryInfo& catInfo) const;
 
   /// Read the data entry specified in the passed CategoryInfo, and increase the
   /// counter afterwards. In case the requested entry is larger than the
@@ -156,7 +160,7 @@ private:
 
   /// Get / read the buffers at index iColl in the passed category information
   std::optional<podio::CollectionReadBuffers> getCollectionBuffers(CategoryInfo& catInfo, size_t iColl,
-                                                                   bool reloadBranches, unsigned int localEntry);
+                                                                   unsigned int localEntry);
 
   std::unique_ptr<TChain> m_metaChain{nullptr};                      ///< The metadata tree
   std::unordered_map<std::string_view, CategoryInfo> m_categories{}; ///< All categories
diff --git a/src/ROOTReader.cc b/src/ROOTReader.cc
index 4ee68cc..2da7a8c 100644
--- a/src/ROOTReader.cc
+++ b/src/ROOTReader.cc
@@ -33,18 +33,11 @@ createCollectionBranchesIndexBased(TChain* chain, const podio::CollectionIDTable
                                    const std::vector<root_utils::CollectionWriteInfo>& collInfo);
 
 template <typename T>
-void ROOTReader::readParams(ROOTReader::CategoryInfo& catInfo, podio::GenericParameters& params, bool reloadBranches,
+void ROOTReader::readParams(ROOTReader::CategoryInfo& catInfo, podio::GenericParameters& params,
                             unsigned int localEntry) {
   const auto collBranchIdx = catInfo.branches.size() - root_utils::nParamBranches - 1;
   constexpr auto brOffset = root_utils::getGPBranchOffsets<T>();
 
-  if (reloadBranches) {
-    auto& keyBranch = catInfo.branches[collBranchIdx + brOffset.keys].data;
-    keyBranch = root_utils::getBranch(catInfo.chain.get(), root_utils::getGPKeyName<T>());
-    auto& valueBranch = catInfo.branches[collBranchIdx + brOffset.values].data;
-    valueBranch = root_utils::getBranch(catInfo.chain.get(), root_utils::getGPValueName<T>());
-  }
-
   auto keyBranch = catInfo.branches[collBranchIdx + brOffset.keys].data;
   auto valueBranch = catInfo.branches[collBranchIdx + brOffset.values].data;
 
@@ -57,29 +50,21 @@ void ROOTReader::readParams(ROOTReader::CategoryInfo& catInfo, podio::GenericPar
   params.loadFrom(std::move(storage.keys), std::move(storage.values));
 }
 
-GenericParameters ROOTReader::readEntryParameters(ROOTReader::CategoryInfo& catInfo, bool reloadBranches,
-                                                  unsigned int localEntry) {
+GenericParameters ROOTReader::readEntryParameters(ROOTReader::CategoryInfo& catInfo, unsigned int localEntry) {
   GenericParameters params;
 
   if (m_fileVersion < podio::version::Version{0, 99, 99}) {
     // Parameter branch is always the last one
-    auto& paramBranches = catInfo.branches.back();
-
-    // Make sure to have a valid branch pointer after switching trees in the chain
-    // as well as on the first event
-    if (reloadBranches) {
-      paramBranches.data = root_utils::getBranch(catInfo.chain.get(), root_utils::paramBranchName);
-    }
-    auto* branch = paramBranches.data;
+    auto* branch = catInfo.branches.back().data;
 
     auto* emd = &params;
     branch->SetAddress(&emd);
     branch->GetEntry(localEntry);
   } else {
-    readParams<int>(catInfo, params, reloadBranches, localEntry);
-    readParams<float>(catInfo, params, reloadBranches, localEntry);
-    readParams<double>(catInfo, params, reloadBranches, localEntry);
-    readParams<std::string>(catInfo, params, reloadBranches, localEntry);
+    readParams<int>(catInfo, params, localEntry);
+    readParams<float>(catInfo, params, localEntry);
+    readParams<double>(catInfo, params, localEntry);
+    readParams<std::string>(catInfo, params, localEntry);
   }
 
   return params;
@@ -120,18 +105,15 @@ std::unique_ptr<ROOTFrameData> ROOTReader::readEntry(ROOTReader::CategoryInfo& c
   // they need to be reassigned.
   // NOTE: root 6.22/06 requires that we get completely new branches here,
   // with 6.20/04 we could just re-set them
-  const auto preTreeNo = catInfo.chain->GetTreeNumber();
   const auto localEntry = catInfo.chain->LoadTree(catInfo.entry);
-  const auto treeChange = catInfo.chain->GetTreeNumber() != preTreeNo;
-  // Also need to make sure to handle the first event
-  const auto reloadBranches = treeChange || localEntry == 0;
+  updateBranches(catInfo);
 
   ROOTFrameData::BufferMap buffers;
   for (size_t i = 0; i < catInfo.storedClasses.size(); ++i) {
     if (!collsToRead.empty() && std::ranges::find(collsToRead, catInfo.storedClasses[i].name) == collsToRead.end()) {
       continue;
     }
-    auto collBuffers = getCollectionBuffers(catInfo, i, reloadBranches, localEntry);
+    auto collBuffers = getCollectionBuffers(catInfo, i, localEntry);
     if (!collBuffers) {
       std::cerr << "WARNING: Buffers couldn't be created for collection " << catInfo.storedClasses[i].name
                 << " of type " << std::get<std::string>(catInfo.storedClasses[i].info) << " and schema version "
@@ -141,16 +123,14 @@ std::unique_ptr<ROOTFrameData> ROOTReader::readEntry(ROOTReader::CategoryInfo& c
     buffers.emplace(catInfo.storedClasses[i].name, std::move(collBuffers.value()));
   }
 
-  auto parameters = readEntryParameters(catInfo, reloadBranches, localEntry);
+  auto parameters = readEntryParameters(catInfo, localEntry);
 
   catInfo.entry++;
   return std::make_unique<ROOTFrameData>(std::move(buffers), catInfo.table, std::move(parameters));
 }
 
 std::optional<podio::CollectionReadBuffers> ROOTReader::getCollectionBuffers(ROOTReader::CategoryInfo& catInfo,
-                                                                             size_t iColl, bool reloadBranches,
-                                                                             unsigned int localEntry) {
-  const auto& name = catInfo.storedClasses[iColl].name;
+                                                                             size_t iColl, unsigned int localEntry) {
   const auto& [collType, isSubsetColl, schemaVersion, index] = catInfo.storedClasses[iColl].info;
   auto& branches = catInfo.branches[index];
 
@@ -163,10 +143,6 @@ std::optional<podio::CollectionReadBuffers> ROOTReader::getCollectionBuffers(ROO
 
   auto& collBuffers = maybeBuffers.value();
 
-  if (reloadBranches) {
-    root_utils::resetBranches(catInfo.chain.get(), branches, name);
-  }
-
   // set the addresses and read the data
   if (!root_utils::setCollectionAddressesReader(collBuffers, branches)) {
     return std::nullopt;
@@ -176,6 +152,30 @@ std::optional<podio::CollectionReadBuffers> ROOTReader::getCollectionBuffers(ROO
   return {std::move(collBuffers)};
 }
 
+void ROOTReader::updateBranches(ROOTReader::CategoryInfo& catInfo) const {
+  if (catInfo.chain->GetTreeNumber() == catInfo.treeNumber) {
+    return;
+  }
+
+  for (const auto& [name, info] : catInfo.storedClasses) {
+    root_utils::resetBranches(catInfo.chain.get(), catInfo.branches[std::get<3>(info)], name);
+  }
+
+  // The branches of the parameters come after the ones of the collections
+  auto brIdx = catInfo.storedClasses.size();
+  if (m_fileVersion < podio::version::Version{0, 99, 99}) {
+    catInfo.branches[brIdx].data = root_utils::getBranch(catInfo.chain.get(), root_utils::paramBranchName);
+  } else {
+    for (const auto* name : {root_utils::intKeyName, root_utils::intValueName, root_utils::floatKeyName,
+                             root_utils::floatValueName, root_utils::doubleKeyName, root_utils::doubleValueName,
+                             root_utils::stringKeyName, root_utils::stringValueName}) {
+      catInfo.branches[brIdx++].data = root_utils::getBranch(catInfo.chain.get(), name);
+    }
+  }
+
+  catInfo.treeNumber = catInfo.chain->GetTreeNumber();
+}
+
 ROOTReader::CategoryInfo& ROOTReader::getCategoryInfo(std::string_view category) {
   if (auto it = m_categories.find(category); it != m_categories.end()) {
     // Use the id table as proxy to check whether this category has been
@@ -453,7 +453,8 @@ std::optional<std::map<std::string, SizeStats>> ROOTReader::getSizeStats(std::st
   if (catIt == m_categories.end()) {
     return std::nullopt;
   }
-  const auto& catInfo = catIt->second;
+  auto& catInfo = catIt->second;
+  updateBranches(catInfo);
   for (const auto& branches : catInfo.branches) {
     size_t totalZipBytes = 0;
     size_t totalTotBytes = 0;
-- 
2.43.0


From bb1bdc7a225bda907764d9c4174cfd4d11c5bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 60/68] fix: RNTupleReader keeps the names of its categories

The maps were keyed by the string_view of the caller, which need not live any
longer when the next entry is read.
---
 include/podio/RNTupleReader.h | 13 +++++++------
 src/RNTupleReader.cc          | 16 ++++++++--------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/podio/RNTupleReader.h b/include/podio/RNTupleReader.h
index 2aafa63..8e7e24f 100644
--- a/include/podio/RNTupleReader.h
+++ b/include/podio/RNTupleReader.h
@@ -4,6 +4,7 @@
 #include "podio/ROOTFrameData.h"
 #include "podio/utilities/ReaderCommon.h"
 #include "podio/utilities/RootHelpers.h"
+#include "podio/utilities/StringKeyMap.h"
 
 #include <string>
 #include <string_view>
@@ -111,22 +112,22 @@ private:
 
   std::unique_ptr<root_compat::RNTupleReader> m_metadata{};
 
-  std::unordered_map<std::string_view, std::vector<std::unique_ptr<root_compat::RNTupleReader>>> m_readers{};
+  podio::StringKeyMap<std::vector<std::unique_ptr<root_compat::RNTupleReader>>> m_readers{};
   std::unordered_map<std::string, std::unique_ptr<root_compat::RNTupleReader>> m_metadata_readers{};
   std::vector<std::string> m_filenames{};
 
-  std::unordered_map<std::string_view, unsigned> m_entries{};
+  podio::StringKeyMap<unsigned> m_entries{};
   // Map category to a vector that contains at how many entries each reader starts
   // For example, if we have 3 readers and the first one has 10 entries, the second one 20 and the third one 30
   // then the vector will be {0, 10, 30}
   // 60 is not needed because anything after 30 will be in the last reader
-  std::unordered_map<std::string_view, std::vector<unsigned>> m_readerEntries{};
-  std::unordered_map<std::string_view, unsigned> m_totalEntries{};
+  podio::StringKeyMap<std::vector<unsigned>> m_readerEntries{};
+  podio::StringKeyMap<unsigned> m_totalEntries{};
 
   /// Map each category to the collections that have been written and are available
-  std::unordered_map<std::string_view, std::vector<podio::root_utils::CollectionWriteInfo>> m_collectionInfo{};
+  podio::StringKeyMap<std::vector<podio::root_utils::CollectionWriteInfo>> m_collectionInfo{};
 
-  std::unordered_map<std::string_view, std::shared_ptr<podio::CollectionIDTable>> m_idTables{};
+  podio::StringKeyMap<std::shared_ptr<podio::CollectionIDTable>> m_idTables{};
 };
 
 } // namespace podio
diff --git a/src/RNTupleReader.cc b/src/RNTupleReader.cc
index f30149f..d64d5f6 100644
--- a/src/RNTupleReader.cc
+++ b/src/RNTupleReader.cc
@@ -55,8 +55,8 @@ bool RNTupleReader::initCategory(std::string_view category) {
   auto collInfo = m_metadata_readers[filename]->GetView<std::vector<root_utils::CollectionWriteInfo>>(
       {root_utils::collInfoName(category)});
 
-  m_collectionInfo[category] = collInfo(0);
-  m_idTables[category] = root_utils::makeCollIdTable(collInfo(0));
+  m_collectionInfo[std::string(category)] = collInfo(0);
+  m_idTables[std::string(category)] = root_utils::makeCollIdTable(collInfo(0));
 
   return true;
 }
@@ -131,7 +131,7 @@ unsigned RNTupleReader::getEntries(std::string_view name) const {
 
 std::unique_ptr<ROOTFrameData> RNTupleReader::readNextEntry(std::string_view category,
                                                             const std::vector<std::string>& collsToRead) {
-  return readEntry(category, m_entries[category], collsToRead);
+  return readEntry(category, m_entries[std::string(category)], collsToRead);
 }
 
 std::unique_ptr<ROOTFrameData> RNTupleReader::readEntry(std::string_view category, const unsigned entNum,
@@ -146,7 +146,7 @@ std::unique_ptr<ROOTFrameData> RNTupleReader::readEntry(std::string_view categor
     return nullptr;
   }
 
-  const auto& collInfo = m_collectionInfo[category];
+  const auto& collInfo = m_collectionInfo[std::string(category)];
   // Make sure to not silently ignore non-existant but requested collections
   if (!collsToRead.empty()) {
     for (const auto& name : collsToRead) {
@@ -156,16 +156,16 @@ std::unique_ptr<ROOTFrameData> RNTupleReader::readEntry(std::string_view categor
     }
   }
 
-  m_entries[category] = entNum + 1;
+  m_entries[std::string(category)] = entNum + 1;
 
   // m_readerEntries contains the accumulated entries for all the readers
   // therefore, the first number that is lower or equal to the entry number
   // is at the index of the reader that contains the entry
-  const auto& readerEntries = m_readerEntries[category];
+  const auto& readerEntries = m_readerEntries[std::string(category)];
   const auto upper = std::ranges::upper_bound(readerEntries, entNum);
   const auto localEntry = entNum - *(upper - 1);
   const auto readerIndex = upper - 1 - readerEntries.begin();
-  const auto& reader = m_readers[category][readerIndex];
+  const auto& reader = m_readers[std::string(category)][readerIndex];
 
   ROOTFrameData::BufferMap buffers;
   // We need to create a non-bare entry here, because the entries for the
@@ -229,7 +229,7 @@ std::unique_ptr<ROOTFrameData> RNTupleReader::readEntry(std::string_view categor
 
   auto parameters = readEventMetaData(reader.get(), localEntry);
 
-  return std::make_unique<ROOTFrameData>(std::move(buffers), m_idTables[category], std::move(parameters));
+  return std::make_unique<ROOTFrameData>(std::move(buffers), m_idTables[std::string(category)], std::move(parameters));
 }
 
 } // namespace podio
-- 
2.43.0


From 825db3954b24223add65a335b01f89bf9a695e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 61/68] fix: ROOT writers tell collection names apart that only
 differ in case

A Frame was accepted with a collection under another name than the one that
has been written before, and the content of the one asked for was lost.
---
 src/rootUtils.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/rootUtils.h b/src/rootUtils.h
index 12e31d9..bca99da 100644
--- a/src/rootUtils.h
+++ b/src/rootUtils.h
@@ -326,16 +326,10 @@ inline bool checkConsistentColls(const std::vector<root_utils::CollectionWriteIn
     sortedCollNames.emplace_back(elem.name);
   }
 
-  const auto comp = [](const auto& lhs, const auto& rhs) {
-    return std::lexicographical_compare(
-        lhs.begin(), lhs.end(), rhs.begin(), rhs.end(),
-        [](const auto cl, const auto cr) { return std::tolower(cl) < std::tolower(cr); });
-  };
-
-  std::ranges::sort(sortedCollNames, comp);
+  std::ranges::sort(sortedCollNames);
 
   for (const auto& name : candidateColls) {
-    if (!std::ranges::binary_search(sortedCollNames, name, comp)) {
+    if (!std::ranges::binary_search(sortedCollNames, std::string_view(name))) {
       return false;
     }
   }
-- 
2.43.0


From d3d19631cf80db53a12e9a38c5c0912c2eef3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 62/68] fix: ROOT writers refuse other types under the names of
 a category

The data of a collection of another type, or of a subset collection, was
written through the branches of the collection that had the name before.
---
 src/RNTupleWriter.cc |  4 ++++
 src/ROOTWriter.cc    |  4 ++++
 src/rootUtils.h      | 12 ++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/src/RNTupleWriter.cc b/src/RNTupleWriter.cc
index d98b280..dcc9912 100644
--- a/src/RNTupleWriter.cc
+++ b/src/RNTupleWriter.cc
@@ -103,6 +103,10 @@ void RNTupleWriter::writeFrame(const podio::Frame& frame, std::string_view categ
                                "' with inconsistent collection content. " +
                                root_utils::getInconsistentCollsMsg(catInfo.names, collsToWrite));
     }
+    if (!root_utils::checkConsistentTypes(catInfo.collInfo, collections)) {
+      throw std::runtime_error("Trying to write category '" + std::string(category) +
+                               "' with collections of other types than before");
+    }
   }
 
   const auto entry = catInfo.writer->GetModel().CreateBareEntry();
diff --git a/src/ROOTWriter.cc b/src/ROOTWriter.cc
index 146a016..f7dde50 100644
--- a/src/ROOTWriter.cc
+++ b/src/ROOTWriter.cc
@@ -60,6 +60,10 @@ void ROOTWriter::writeFrame(const podio::Frame& frame, std::string_view category
                                "' with inconsistent collection content. " +
                                root_utils::getInconsistentCollsMsg(catInfo.collsToWrite, collsToWrite));
     }
+    if (!root_utils::checkConsistentTypes(catInfo.collInfo, collections)) {
+      throw std::runtime_error("Trying to write category '" + std::string(category) +
+                               "' with collections of other types than before");
+    }
     fillParams(catInfo, frame.getParameters());
     resetBranches(catInfo, collections);
   }
diff --git a/src/rootUtils.h b/src/rootUtils.h
index bca99da..42b8c60 100644
--- a/src/rootUtils.h
+++ b/src/rootUtils.h
@@ -336,6 +336,18 @@ inline bool checkConsistentColls(const std::vector<root_utils::CollectionWriteIn
   return true;
 }
 
+/**
+ * Check whether the collections still are what they were when the collection
+ * info was filled. Inputs are assumed to be in the same order.
+ */
+inline bool checkConsistentTypes(const std::vector<root_utils::CollectionWriteInfo>& collInfo,
+                                 const std::vector<root_utils::StoreCollection>& collections) {
+  return std::ranges::equal(collInfo, collections, [](const auto& info, const auto& storeColl) {
+    const auto* coll = std::get<1>(storeColl);
+    return info.dataType == coll->getTypeName() && info.isSubset == coll->isSubsetCollection();
+  });
+}
+
 /**
  * Get the differences in the existingColls and candidateColls collection names.
  * Returns two vectors of collection names. The first one are the collections
-- 
2.43.0


From 256a7bb057d97cb7365b798b598971af52e63eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 63/68] fix: a refused first Frame does not set up its category
 in ROOT files

The collections of the category were fixed by a Frame that could not be
written, and the category was listed although it has no entries. Also do not
rely on the category name to be null terminated.
---
 src/RNTupleWriter.cc | 31 ++++++++++++++-----------------
 src/ROOTWriter.cc    | 26 +++++++++++++-------------
 2 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/RNTupleWriter.cc b/src/RNTupleWriter.cc
index dcc9912..54c496d 100644
--- a/src/RNTupleWriter.cc
+++ b/src/RNTupleWriter.cc
@@ -61,21 +61,17 @@ void RNTupleWriter::writeFrame(const podio::Frame& frame, std::string_view categ
 
 void RNTupleWriter::writeFrame(const podio::Frame& frame, std::string_view category,
                                const std::vector<std::string>& collsToWrite) {
-  auto& catInfo = getCategoryInfo(category);
-
-  // Use the writer as proxy to check whether this category has been initialized
-  // already and do so if not
-  const bool new_category = catInfo.writer == nullptr;
-  if (new_category) {
-    // This is the minimal information that we need for now
-    catInfo.names = podio::utils::sortAlphabeticaly(collsToWrite);
-  }
+  // Only set up a new category once it is clear that this Frame can be written
+  const auto catIt = m_categories.find(category);
+  const bool new_category = catIt == m_categories.end();
+  const auto newNames = new_category ? podio::utils::sortAlphabeticaly(collsToWrite) : std::vector<std::string>{};
+  const auto& names = new_category ? newNames : catIt->second.names;
 
   std::vector<root_utils::StoreCollection> collections;
-  collections.reserve(catInfo.names.size());
+  collections.reserve(names.size());
   // Only loop over the collections that were requested in the first Frame of
   // this category
-  for (const auto& name : catInfo.names) {
+  for (const auto& name : names) {
     const auto* coll = frame.getCollectionForWrite(name);
     if (!coll) {
       // Make sure all collections that we want to write are actually available
@@ -87,13 +83,18 @@ void RNTupleWriter::writeFrame(const podio::Frame& frame, std::string_view categ
     collections.emplace_back(name, const_cast<podio::CollectionBase*>(coll));
   }
 
+  auto model = new_category ? createModels(collections) : nullptr;
+
+  auto& catInfo = getCategoryInfo(category);
   if (new_category) {
-    // Now we have enough info to populate the rest
-    auto model = createModels(collections);
+    catInfo.names = newNames;
     catInfo.writer = root_compat::RNTupleWriter::Append(std::move(model), category, *m_file.get(), {});
 
     catInfo.collInfo.reserve(collections.size());
     for (const auto& [name, coll] : collections) {
+      // For the first entry in each category we also record the datamodel
+      // definition
+      m_datamodelCollector.registerDatamodelDefinition(coll, name);
       catInfo.collInfo.emplace_back(coll->getID(), std::string(coll->getTypeName()), coll->isSubsetCollection(),
                                     coll->getSchemaVersion(), name, root_utils::getStorageTypeName(coll));
     }
@@ -166,10 +167,6 @@ RNTupleWriter::createModels(const std::vector<root_utils::StoreCollection>& coll
   auto model = root_compat::RNTupleModel::CreateBare();
 
   for (const auto& [name, coll] : collections) {
-    // For the first entry in each category we also record the datamodel
-    // definition
-    m_datamodelCollector.registerDatamodelDefinition(coll, name);
-
     const auto collBuffers = coll->getBuffers();
 
     if (collBuffers.vecPtr) {
diff --git a/src/ROOTWriter.cc b/src/ROOTWriter.cc
index f7dde50..5b9037d 100644
--- a/src/ROOTWriter.cc
+++ b/src/ROOTWriter.cc
@@ -26,18 +26,15 @@ void ROOTWriter::writeFrame(const podio::Frame& frame, std::string_view category
 
 void ROOTWriter::writeFrame(const podio::Frame& frame, std::string_view category,
                             const std::vector<std::string>& collsToWrite) {
-  auto& catInfo = getCategoryInfo(category);
-  // Use the TTree as proxy here to decide whether this category has already
-  // been initialized
-  if (catInfo.tree == nullptr) {
-    catInfo.collsToWrite = podio::utils::sortAlphabeticaly(collsToWrite);
-    catInfo.tree = new TTree(category.data(), (std::string(category) + " data tree").c_str());
-    catInfo.tree->SetDirectory(&m_file);
-  }
+  // Only set up a new category once it is clear that this Frame can be written
+  const auto catIt = m_categories.find(category);
+  const bool newCategory = catIt == m_categories.end();
+  const auto newColls = newCategory ? podio::utils::sortAlphabeticaly(collsToWrite) : std::vector<std::string>{};
+  const auto& categoryColls = newCategory ? newColls : catIt->second.collsToWrite;
 
   std::vector<root_utils::StoreCollection> collections;
-  collections.reserve(catInfo.collsToWrite.size());
-  for (const auto& name : catInfo.collsToWrite) {
+  collections.reserve(categoryColls.size());
+  for (const auto& name : categoryColls) {
     const auto* coll = frame.getCollectionForWrite(name);
     if (!coll) {
       // Make sure all collections that we want to write are actually available
@@ -48,9 +45,12 @@ void ROOTWriter::writeFrame(const podio::Frame& frame, std::string_view category
     collections.emplace_back(name, const_cast<podio::CollectionBase*>(coll));
   }
 
-  // We will at least have a parameters branch, even if there are no
-  // collections
-  if (catInfo.branches.empty()) {
+  auto& catInfo = getCategoryInfo(category);
+  if (newCategory) {
+    catInfo.collsToWrite = newColls;
+    const auto categoryName = std::string(category);
+    catInfo.tree = new TTree(categoryName.c_str(), (categoryName + " data tree").c_str());
+    catInfo.tree->SetDirectory(&m_file);
     initBranches(catInfo, collections, const_cast<podio::GenericParameters&>(frame.getParameters()));
   } else {
     // Make sure that the category contents are consistent with the initial
-- 
2.43.0


From 8f2fd869178f2b7e4cbf76e7120ac7ad66446942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 64/68] fix: ROOTWriter refuses collections that need a branch
 of the same name

E.g. a subset collection hits and a collection hits_objIdx went to branches
that cannot be told apart and the wrong content was read from them.
---
 src/ROOTWriter.cc |  7 +++++++
 src/rootUtils.h   | 28 ++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/ROOTWriter.cc b/src/ROOTWriter.cc
index 5b9037d..efe0e5d 100644
--- a/src/ROOTWriter.cc
+++ b/src/ROOTWriter.cc
@@ -45,6 +45,13 @@ void ROOTWriter::writeFrame(const podio::Frame& frame, std::string_view category
     collections.emplace_back(name, const_cast<podio::CollectionBase*>(coll));
   }
 
+  if (newCategory) {
+    if (const auto clash = root_utils::getClashingBranch(collections); !clash.empty()) {
+      throw std::runtime_error("More than one collection of category '" + std::string(category) +
+                               "' would be written to branch '" + clash + "'");
+    }
+  }
+
   auto& catInfo = getCategoryInfo(category);
   if (newCategory) {
     catInfo.collsToWrite = newColls;
diff --git a/src/rootUtils.h b/src/rootUtils.h
index 42b8c60..1419a29 100644
--- a/src/rootUtils.h
+++ b/src/rootUtils.h
@@ -4,6 +4,7 @@
 #include "podio/CollectionBase.h"
 #include "podio/CollectionBuffers.h"
 #include "podio/CollectionIDTable.h"
+#include "podio/DatamodelRegistry.h"
 #include "podio/utilities/RootHelpers.h"
 #include "podio/utilities/TypeHelpers.h"
 
@@ -348,6 +349,33 @@ inline bool checkConsistentTypes(const std::vector<root_utils::CollectionWriteIn
   });
 }
 
+/**
+ * Get the name of a branch that more than one of the collections (or the
+ * parameters) would need in the same tree. Empty if there is no such branch.
+ */
+inline std::string getClashingBranch(const std::vector<root_utils::StoreCollection>& collections) {
+  std::vector<std::string> names{intKeyName,    intValueName,    floatKeyName,  floatValueName,
+                                 doubleKeyName, doubleValueName, stringKeyName, stringValueName};
+  for (const auto& [name, coll] : collections) {
+    if (coll->isSubsetCollection()) {
+      names.emplace_back(subsetBranch(name));
+      continue;
+    }
+    names.emplace_back(name);
+    const auto relVecNames = podio::DatamodelRegistry::instance().getRelationNames(coll->getValueTypeName());
+    for (const auto relName : relVecNames.relations) {
+      names.emplace_back(refBranch(name, relName));
+    }
+    for (const auto vecName : relVecNames.vectorMembers) {
+      names.emplace_back(vecBranch(name, vecName));
+    }
+  }
+
+  std::ranges::sort(names);
+  const auto it = std::ranges::adjacent_find(names);
+  return it != names.end() ? *it : "";
+}
+
 /**
  * Get the differences in the existingColls and candidateColls collection names.
  * Returns two vectors of collection names. The first one are the collections
-- 
2.43.0


From 8d84967aed1bc83766b885fa90ec7a3cd5f2c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 65/68] fix: ROOT writers report when their file cannot be
 opened

Everything was accepted without an error and then lost.
---
 src/RNTupleWriter.cc | 3 +++
 src/ROOTWriter.cc    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/RNTupleWriter.cc b/src/RNTupleWriter.cc
index 54c496d..540c016 100644
--- a/src/RNTupleWriter.cc
+++ b/src/RNTupleWriter.cc
@@ -26,6 +26,9 @@ namespace podio {
 
 RNTupleWriter::RNTupleWriter(const std::string& filename) :
     m_file(new TFile(filename.c_str(), "RECREATE", "data file")) {
+  if (m_file->IsZombie()) {
+    throw std::runtime_error("Could not open file '" + filename + "' for writing");
+  }
 }
 
 RNTupleWriter::~RNTupleWriter() {
diff --git a/src/ROOTWriter.cc b/src/ROOTWriter.cc
index efe0e5d..0c6e0ef 100644
--- a/src/ROOTWriter.cc
+++ b/src/ROOTWriter.cc
@@ -14,6 +14,9 @@
 namespace podio {
 
 ROOTWriter::ROOTWriter(const std::string& filename) : m_file(filename.c_str(), "recreate") {
+  if (m_file.IsZombie()) {
+    throw std::runtime_error("Could not open file '" + filename + "' for writing");
+  }
 }
 
 ROOTWriter::~ROOTWriter() {
-- 
2.43.0


From 2cef7bb8c4a37044f56b2fcd954ce9da729551ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 66/68] fix: ROOTReader::getSizeStats names subset collections
 of older files

---
 src/ROOTReader.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ROOTReader.cc b/src/ROOTReader.cc
index 2da7a8c..2ebed27 100644
--- a/src/ROOTReader.cc
+++ b/src/ROOTReader.cc
@@ -455,7 +455,8 @@ std::optional<std::map<std::string, SizeStats>> ROOTReader::getSizeStats(std::st
   }
   auto& catInfo = catIt->second;
   updateBranches(catInfo);
-  for (const auto& branches : catInfo.branches) {
+  for (size_t iBranch = 0; iBranch < catInfo.branches.size(); ++iBranch) {
+    const auto& branches = catInfo.branches[iBranch];
     size_t totalZipBytes = 0;
     size_t totalTotBytes = 0;
     for (const auto& br : branches.vecs) {
@@ -471,11 +472,9 @@ std::optional<std::map<std::string, SizeStats>> ROOTReader::getSizeStats(std::st
       totalTotBytes += branches.data->GetTotBytes("*");
       stats[branches.data->GetName()] = {totalZipBytes, static_cast<float>(totalTotBytes) / totalZipBytes};
     } else {
-      auto names = branches.refNames[0];
-      // This is a subset collection
-      // Delete the suffix "_objIdx"
-      names.erase(names.end() - 7, names.end());
-      stats[names] = {totalZipBytes, static_cast<float>(totalTotBytes) / totalZipBytes};
+      // This is a subset collection, the suffix of its only branch depends on
+      // the version of the file
+      stats[catInfo.storedClasses[iBranch].name] = {totalZipBytes, static_cast<float>(totalTotBytes) / totalZipBytes};
     }
   }
   return stats;
-- 
2.43.0


From 3b5e419cd7437393c15654916adfb9b27d3967e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 67/68] fix: DataSource gives all events to every event loop

---
 src/DataSource.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DataSource.cc b/src/DataSource.cc
index 5e4f077..c91ea99 100644
--- a/src/DataSource.cc
+++ b/src/DataSource.cc
@@ -94,6 +94,8 @@ void DataSource::SetNSlots(unsigned int nSlots) {
 }
 
 void DataSource::Initialize() {
+  // Every event loop goes through all ranges again
+  m_rangesAvailable = m_rangesAll;
 }
 
 std::vector<std::pair<ULong64_t, ULong64_t>> DataSource::GetEntryRanges() {
-- 
2.43.0


From 3c780232384776f49d0301b2f3be9bc27a478d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 68/68] fix: ROOTReader does not share the unknown category
 between threads

---
 src/ROOTReader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ROOTReader.cc b/src/ROOTReader.cc
index 2ebed27..d9561e4 100644
--- a/src/ROOTReader.cc
+++ b/src/ROOTReader.cc
@@ -188,7 +188,8 @@ ROOTReader::CategoryInfo& ROOTReader::getCategoryInfo(std::string_view category)
 
   // Use a nullptr TChain to signify an invalid category request
   // TODO: Warn / log
-  static auto invalidCategory = CategoryInfo{nullptr};
+  // NOTE: readers can be used in different threads and set the entry to read
+  static thread_local auto invalidCategory = CategoryInfo{nullptr};
 
   return invalidCategory;
 }
-- 
2.43.0

