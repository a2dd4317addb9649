From e6a7cf8db1759f785a8806cba772281b1f36a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 01/89] fix: forget the sectors of a removed site

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..6bf0a48 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
-- 
2.43.0


From 9a4aa3c3195d5a4188b4069ff705543744d72a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 02/89] fix: remove a link from a site to itself only once with
 its site

---
 terragraph_planner/common/topology_models/topology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 6bf0a48..2190526 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -119,7 +119,8 @@ class Topology:
         for link_id in self.site_connectivity.get(site_id, {}).values():
             link_to_remove.append(link_id)
         for link_id in self.site_connectivity_reverse.get(site_id, {}).values():
-            link_to_remove.append(link_id)
+            if link_id not in link_to_remove:
+                link_to_remove.append(link_id)
         for link_id in link_to_remove:
             self.remove_link(link_id)
 
-- 
2.43.0


From 8c66ccac913c2f17bd8c6318801e4c6718af6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 03/89] fix: use the incoming link to find wireless
 predecessors

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 2190526..f7d1757 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -311,7 +311,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From aa50989e8bd93bc0157df5ee1c99ec4e2c81fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 04/89] fix: honour coordinate overrides when copying a
 location

---
 terragraph_planner/common/geos.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/common/geos.py b/terragraph_planner/common/geos.py
index aa23c4a..28dd1bd 100644
--- a/terragraph_planner/common/geos.py
+++ b/terragraph_planner/common/geos.py
@@ -120,15 +120,29 @@ class GeoLocation:
         and defaulting to self's attribute values otherwise.
         NOTE: this is not __copy__ or __deepcopy__ and is not intended for the same purpose.
         """
+        altitude = kwargs.get("altitude", self._altitude)
+        if not kwargs.keys().isdisjoint({"utm_x", "utm_y", "utm_epsg"}):
+            return GeoLocation(
+                utm_x=kwargs.get("utm_x", self.utm_x),
+                utm_y=kwargs.get("utm_y", self.utm_y),
+                utm_epsg=cast(
+                    Optional[int], kwargs.get("utm_epsg", self.utm_epsg)
+                ),
+                altitude=altitude,
+            )
+        if not kwargs.keys().isdisjoint({"latitude", "longitude"}):
+            return GeoLocation(
+                latitude=kwargs.get("latitude", self.latitude),
+                longitude=kwargs.get("longitude", self.longitude),
+                altitude=altitude,
+            )
         return GeoLocation(
-            latitude=kwargs.get("latitude", self._latitude),
-            longitude=kwargs.get("longitude", self._longitude),
-            utm_x=kwargs.get("utm_x", self._utm_x),
-            utm_y=kwargs.get("utm_y", self._utm_y),
-            utm_epsg=cast(
-                Optional[int], kwargs.get("utm_epsg", self._utm_epsg)
-            ),
-            altitude=kwargs.get("altitude", self._altitude),
+            latitude=self._latitude,
+            longitude=self._longitude,
+            utm_x=self._utm_x,
+            utm_y=self._utm_y,
+            utm_epsg=self._utm_epsg,
+            altitude=altitude,
         )
 
     def _update_lat_lon(self) -> None:
-- 
2.43.0


From f20025199e0ddd8d47c35c365a6746e12d3d136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 05/89] fix: apply configuration keys whatever their case and
 surrounding spaces

---
 .../common/configuration/utils.py             | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/configuration/utils.py b/terragraph_planner/common/configuration/utils.py
index c33c81f..6c4ec1a 100644
--- a/terragraph_planner/common/configuration/utils.py
+++ b/terragraph_planner/common/configuration/utils.py
@@ -55,6 +55,29 @@ def _detect_typo(data: Dict[str, Any], origin: Dict[str, Any]) -> None:
                     _detect_typo(value[i], origin_value[0])
 
 
+def _normalize_keys(
+    data: Dict[str, Any], origin: Dict[str, Any]
+) -> Dict[str, Any]:
+    """
+    Rename the keys of the user input, which can have any case and surrounding
+    spaces, to the keys of the template.
+
+    @params data: a dict generated from user input without any typo.
+    @params origin: a dict generated from empty template.
+    """
+    origin_lower_cases = {k.casefold(): k for k in origin.keys()}
+    normalized = {}
+    for k, value in data.items():
+        key = origin_lower_cases[k.strip().casefold()]
+        origin_value = origin[key]
+        if isinstance(value, dict):
+            value = _normalize_keys(value, origin_value)
+        elif isinstance(value, list) and isinstance(origin_value[0], dict):
+            value = [_normalize_keys(v, origin_value[0]) for v in value]
+        normalized[key] = value
+    return normalized
+
+
 def _load_dict_from_file(
     file_path: str,
 ) -> Dict[str, Any]:
@@ -88,7 +111,7 @@ def _load_dict_from_file(
         origin = yaml.safe_load(fi)
         _detect_typo(data, origin)
 
-    return data
+    return _normalize_keys(data, origin)
 
 
 def struct_objects_from_file(obj_name: str, file_path: str) -> ConfigParser:
-- 
2.43.0


From 373e1ff056ac170776361b7b83ce5a03eb030432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 06/89] fix: back off to the next MCS level of the mapping
 table

---
 terragraph_planner/common/rf/link_budget_calculator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 750864f..da4b88d 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -422,7 +422,11 @@ def adjust_tx_power_with_backoff(
         tx_backoff = get_backoff_from_mcs(mcs_level, mcs_snr_mbps_map)
         if tx_power <= max_tx_power - tx_backoff:
             return mcs_level, tx_power
-        mcs_level -= 1
+        # Not every MCS level has to be in the mapping table
+        mcs_level = max(
+            (row.mcs for row in mcs_snr_mbps_map if row.mcs < mcs_level),
+            default=0,
+        )
     return 0, -math.inf
 
 
-- 
2.43.0


From 279a809d003b3586487ff4571234ca3796acc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 07/89] fix: apply the minimum MCS level and Tx power to every
 MCS table, reject empty ones

---
 .../common/configuration/configs.py           |  3 +-
 .../common/data_io/csv_library.py             | 49 ++++++++++++++-----
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..3cc33a7 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -20,6 +20,7 @@ from terragraph_planner.common.configuration.enums import (
 )
 from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
 from terragraph_planner.common.data_io.csv_library import (
+    filter_mcs_snr_mbps_map,
     read_antenna_pattern_data,
     read_mcs_snr_mbps_map_data,
     read_scan_pattern_data,
@@ -279,7 +280,7 @@ class SectorParams(ConfigParser):
         self.mcs_map: List[MCSMap] = (
             read_mcs_snr_mbps_map_data(mcs_map_file_path, self)
             if mcs_map_file_path is not None
-            else DEFAULT_MCS_SNR_MBPS_MAP
+            else filter_mcs_snr_mbps_map(DEFAULT_MCS_SNR_MBPS_MAP, self)
         )
 
 
diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..0e6abf7 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -388,7 +388,7 @@ def read_mcs_snr_mbps_map_data(
             DataException,
         )
     planner_assert(
-        len(raw_data) > 0,
+        len(raw_data) > 1,
         "The csv file must contain at least two lines including column names.",
         DataException,
     )
@@ -468,29 +468,52 @@ def read_mcs_snr_mbps_map_data(
         DataException,
     )
 
+    return filter_mcs_snr_mbps_map(
+        [
+            MCSMap(
+                mcs=int(mapping[MCS][i]),
+                snr=mapping[SNR][i],
+                mbps=mapping[MBPS][i],
+                tx_backoff=mapping[TX_BACKOFF][i],
+            )
+            for i in range(len(raw_data) - 1)
+        ],
+        sector_params,
+    )
+
+
+def filter_mcs_snr_mbps_map(
+    mcs_snr_mbps_map: List[MCSMap],
+    sector_params: "SectorParams",
+) -> List[MCSMap]:
+    """
+    Only keep the MCS levels that are allowed by the minimum MCS level and the
+    minimum Tx power of the sector parameters.
+    """
     planner_assert(
         sector_params.minimum_mcs_level is None
-        or max(mapping[MCS]) >= sector_params.minimum_mcs_level,
+        or max(row.mcs for row in mcs_snr_mbps_map)
+        >= sector_params.minimum_mcs_level,
         "The Max MCS level in the mapping table must not smaller than input Min MCS.",
         DataException,
     )
 
-    mcs_snr_mbps_map = [
-        MCSMap(
-            mcs=int(mapping[MCS][i]),
-            snr=mapping[SNR][i],
-            mbps=mapping[MBPS][i],
-            tx_backoff=mapping[TX_BACKOFF][i],
-        )
-        for i in range(len(raw_data) - 1)
+    filtered_mcs_snr_mbps_map = [
+        row
+        for row in mcs_snr_mbps_map
         if (
             sector_params.minimum_tx_power is None
-            or sector_params.maximum_tx_power - mapping[TX_BACKOFF][i]
+            or sector_params.maximum_tx_power - row.tx_backoff
             >= none_throws(sector_params.minimum_tx_power)
         )
         and (
             sector_params.minimum_mcs_level is None
-            or mapping[MCS][i] >= sector_params.minimum_mcs_level
+            or row.mcs >= sector_params.minimum_mcs_level
         )
     ]
-    return mcs_snr_mbps_map
+    planner_assert(
+        len(filtered_mcs_snr_mbps_map) > 0,
+        "No MCS level in the mapping table is allowed by the input Min MCS and Min Tx power.",
+        DataException,
+    )
+    return filtered_mcs_snr_mbps_map
-- 
2.43.0


From e2bf7f0ce696f02a7b0b750db19287ac3d00a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 08/89] fix: accept MCS tables with repeated values in any row
 order

---
 .../common/data_io/csv_library.py             | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 0e6abf7..f3046a0 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -449,21 +449,17 @@ def read_mcs_snr_mbps_map_data(
                     DataException,
                 )
 
-    def _get_ordering(lst: List[float]) -> List[int]:
-        """
-        The ordering of MCS, SNR, MBPS and TX_BACKOFF must match. For increasing MCS, SNR
-        threshold, Mbps and Tx power backoff should be also increasing.
-        """
-        return [i[0] for i in sorted(enumerate(lst), key=lambda x: x[1])]
-
-    mcs_ordering = _get_ordering(mapping[MCS])
-    snr_ordering = _get_ordering(mapping[SNR])
-    mbps_ordering = _get_ordering(mapping[MBPS])
-    tx_backoff_ordering = _get_ordering(mapping[TX_BACKOFF])
+    # The ordering of MCS, SNR, MBPS and TX_BACKOFF must match. For increasing MCS, SNR
+    # threshold, Mbps and Tx power backoff must not decrease.
+    mcs_ordering = sorted(
+        range(len(raw_data) - 1), key=lambda i: mapping[MCS][i]
+    )
     planner_assert(
-        mcs_ordering == snr_ordering
-        and mcs_ordering == mbps_ordering
-        and mcs_ordering == tx_backoff_ordering,
+        all(
+            mapping[key_name][i] <= mapping[key_name][j]
+            for key_name in expected_keys
+            for i, j in zip(mcs_ordering, mcs_ordering[1:])
+        ),
         "The ordering of all columns must be the same.",
         DataException,
     )
-- 
2.43.0


From 180c9ef54bdaa3ea1245ac87d9790030efa14bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 09/89] fix: reject antenna patterns whose last table lacks
 angles

---
 terragraph_planner/common/data_io/csv_library.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index f3046a0..a022172 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -328,6 +328,11 @@ def read_antenna_pattern_data(
                 "Imported antenna pattern file has an unexpected number of loss entries!",
                 DataException,
             )
+        planner_assert(
+            len(az_pattern) == 360 and len(el_pattern) == 360,
+            "Imported antenna pattern file has an unexpected number of loss entries!",
+            DataException,
+        )
         antenna_pattern = [
             (-1 * az_pattern[1]).values.tolist(),
             (-1 * el_pattern[1]).values.tolist(),
-- 
2.43.0


From 9d3fd360396428a8879f264cc82c0579e145e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 10/89] fix: use the folder name for the type of KML links
 without a type field

---
 terragraph_planner/common/data_io/kml_library.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..419407c 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -133,17 +133,14 @@ def extract_links(
     for feature in layer:
         geometry = feature.GetGeometryRef()
         link_type_str = _get_feature_field(feature, LinkKey.LINK_TYPE)
-        link_type = (
-            LinkType[link_type_str.upper()]
-            if link_type_str.upper() in LinkType.__members__
-            else LinkType.WIRELESS_BACKHAUL
-        )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
         confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
         link = RawLink(
             status_type=status_type,
-            link_type=link_type,
+            link_type=LinkType[link_type_str.upper()]
+            if link_type_str.upper() in LinkType.__members__
+            else link_type,
             confidence_level=float(confidence_level)
             if confidence_level.isdecimal()
             else None,
-- 
2.43.0


From eff47cf45fe8573091aa41f8704d8912761261c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 11/89] fix: connect KML links without site names to the sites
 at their ends

---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 terragraph_planner/common/structs.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 419407c..a3bb6dd 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -144,10 +144,10 @@ def extract_links(
             confidence_level=float(confidence_level)
             if confidence_level.isdecimal()
             else None,
-            tx_site_name=tx_site_name,
+            tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-            rx_site_name=rx_site_name,
+            rx_site_name=rx_site_name if len(rx_site_name) > 0 else None,
             rx_latitude=geometry.GetPoint(1)[1],
             rx_longitude=geometry.GetPoint(1)[0],
         )
diff --git a/terragraph_planner/common/structs.py b/terragraph_planner/common/structs.py
index 4fdd8b6..3f06aa9 100644
--- a/terragraph_planner/common/structs.py
+++ b/terragraph_planner/common/structs.py
@@ -83,10 +83,10 @@ class RawLink(NamedTuple):
     link_type: LinkType
     status_type: StatusType
     confidence_level: Optional[float]
-    tx_site_name: str
+    tx_site_name: Optional[str]
     tx_latitude: float
     tx_longitude: float
-    rx_site_name: str
+    rx_site_name: Optional[str]
     rx_latitude: float
     rx_longitude: float
 
-- 
2.43.0


From c02b5ac35fe18a1125e3d72b86ce32ed5aa88172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 12/89] fix: read fractional confidence levels of KML links

---
 terragraph_planner/common/data_io/kml_library.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index a3bb6dd..103038e 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -45,6 +45,13 @@ def _get_feature_field(
         return ""
 
 
+def _to_float_or_none(value: str) -> Optional[float]:
+    try:
+        return float(value)
+    except ValueError:
+        return None
+
+
 def _get_site_altitude_height(
     altitude_mode: str, altitude: Optional[float]
 ) -> Tuple[Optional[float], Optional[float]]:
@@ -141,9 +148,7 @@ def extract_links(
             link_type=LinkType[link_type_str.upper()]
             if link_type_str.upper() in LinkType.__members__
             else link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
+            confidence_level=_to_float_or_none(confidence_level),
             tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-- 
2.43.0


From b1dd9440bd56255c7c919f3c2f266a98192485b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 13/89] fix: escape the topology name in KML output

---
 terragraph_planner/common/data_io/topology_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..ebfaeaa 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -475,7 +475,7 @@ def _set_styles(markup_string: StringIO, topology_name: Optional[str]) -> None:
         <kml xmlns="http://www.opengis.net/kml/2.2"
              xmlns:gx="http://www.google.com/kml/ext/2.2">
         <Document>
-        <name>{topology_name or "topology"}</name>
+        <name>{escape(topology_name or "topology")}</name>
         <Schema name="site_metadata" id="site_metadata">
             <SimpleField name="description" type="string"></SimpleField>
             <SimpleField name="site_hash" type="string"></SimpleField>
-- 
2.43.0


From 7e2971907343e8c387a88caab2b2c0f38e692ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 14/89] fix: keep rooftop sites loadable from KML topology
 files

---
 terragraph_planner/common/data_io/data_key.py           | 1 +
 terragraph_planner/common/data_io/input_sites_loader.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/terragraph_planner/common/data_io/data_key.py b/terragraph_planner/common/data_io/data_key.py
index 96ada96..ca3c06e 100644
--- a/terragraph_planner/common/data_io/data_key.py
+++ b/terragraph_planner/common/data_io/data_key.py
@@ -174,6 +174,7 @@ class SiteKey(BaseDataKey):
             cls.STATUS_TYPE,
             cls.POLARITY,
             cls.LOCATION_TYPE,
+            cls.BUILDING_ID,
             cls.DEVICE_SKU,
             cls.NUMBER_OF_SUBSCRIBERS,
         ]
diff --git a/terragraph_planner/common/data_io/input_sites_loader.py b/terragraph_planner/common/data_io/input_sites_loader.py
index 9e83db1..9d900c9 100644
--- a/terragraph_planner/common/data_io/input_sites_loader.py
+++ b/terragraph_planner/common/data_io/input_sites_loader.py
@@ -168,6 +168,8 @@ class InputSitesLoader:
             location = GeoLocation(
                 latitude=latitude, longitude=longitude, altitude=altitude
             )
+            if location_type == LocationType.ROOFTOP and building_id is None:
+                building_id = UNKNOWN_BUILDING_ID
 
         if device_sku is not None:
             planner_assert(
-- 
2.43.0


From f7fa9da56f8ce4cff90dc3f46f6409d176c8fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 15/89] fix: read site CSV files that leave some altitudes or
 heights blank

---
 terragraph_planner/common/data_io/csv_library.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index a022172..78d5a20 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -151,6 +151,20 @@ def load_csv_and_validate(
                 df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
                     row[SiteKey.NUMBER_OF_SUBSCRIBERS]
                 )
+        for input_key in (SiteKey.ALTITUDE, SiteKey.HEIGHT):
+            if input_key in row and isinstance(row[input_key], str):
+                try:
+                    df.loc[idx, input_key] = (
+                        float(row[input_key])
+                        if len(row[input_key].strip()) > 0
+                        else None
+                    )
+                except ValueError:
+                    planner_assert(
+                        False,
+                        f"Provided input contains a malformed altitude/height value: {row[input_key]}.",
+                        DataException,
+                    )
         for input_key in input_key_list:
             if input_key in row and input_key not in NUMERIC_KEYS:
                 df.loc[idx, input_key] = row[input_key].strip()
-- 
2.43.0


From c404cef1ca6615169c6ffe439e3a36d9b077f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 16/89] fix: treat a blank device SKU in a site CSV file as not
 specified

---
 terragraph_planner/common/data_io/csv_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 78d5a20..517e74e 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -211,7 +211,7 @@ def load_input_sites_from_csv_file(
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
-            device_sku=site_row.get(SiteKey.DEVICE_SKU, None),
+            device_sku=site_row.get(SiteKey.DEVICE_SKU, None) or None,
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
-- 
2.43.0


From 5b46551a70461ba64bd5e8ae5553c4157acf7d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 17/89] fix: read the location type and building of sites in
 CSV files

---
 terragraph_planner/common/data_io/csv_library.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 517e74e..888f93f 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -208,6 +208,13 @@ def load_input_sites_from_csv_file(
         longitude = site_row[SiteKey.LONGITUDE]
         if latitude is None or longitude is None:
             continue
+        location_type_str = site_row.get(SiteKey.LOCATION_TYPE, "").upper()
+        location_type = (
+            LocationType[location_type_str]
+            if location_type_str in LocationType.__members__
+            else LocationType.UNKNOWN
+        )
+        building_id = site_row.get(SiteKey.BUILDING_ID, "")
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
@@ -217,8 +224,10 @@ def load_input_sites_from_csv_file(
             longitude=longitude,
             altitude=site_row.get(SiteKey.ALTITUDE, None),
             height=site_row.get(SiteKey.HEIGHT, None),
-            location_type=LocationType.UNKNOWN,
-            building_id=site_row.get(SiteKey.BUILDING_ID, None),
+            location_type=location_type,
+            building_id=int(building_id)
+            if location_type is LocationType.ROOFTOP and building_id.isdecimal()
+            else None,
             number_of_subscribers=site_row.get(
                 SiteKey.NUMBER_OF_SUBSCRIBERS, None
             ),
-- 
2.43.0


From 55ac05ddf9f7f793f6ac158f90f773890de59eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 18/89] fix: reject site names that collide with a name
 extended by the device SKU

---
 terragraph_planner/common/data_io/input_sites.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/common/data_io/input_sites.py b/terragraph_planner/common/data_io/input_sites.py
index dbd9162..7f1257c 100644
--- a/terragraph_planner/common/data_io/input_sites.py
+++ b/terragraph_planner/common/data_io/input_sites.py
@@ -99,10 +99,16 @@ class InputSites(abc.Sized, abc.Iterable):
         if len(self._site_name_to_device_skus[site.name]) > 1:
             self._append_device_sku_to_site_name(site)
         else:  # That's the first site with this site name. Then no need to append device_sku
+            self._validate_unused_name(site.name)
             self._site_name_to_site[site.name] = site
 
     def _append_device_sku_to_site_name(self, site: Site) -> None:
         if site.name in self._site_name_to_site:
             del self._site_name_to_site[site.name]
         site.name = f"{site.name}_{site.device.device_sku.casefold()}"
+        self._validate_unused_name(site.name)
         self._site_name_to_site[site.name] = site
+
+    def _validate_unused_name(self, site_name: str) -> None:
+        if site_name in self._site_name_to_site:
+            raise DataException(f"Duplicate site name {site_name}")
-- 
2.43.0


From 5406c76dfc8ae0b680b0b201d5f632f1a94beb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 19/89] fix: read every placemark's own fields of a KML folder,
 also typed ones

---
 .../common/data_io/kml_library.py             | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 103038e..84eb418 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -32,17 +32,17 @@ def _get_feature_field(
     feature: ogr.Feature, input: Union[SiteKey, LinkKey]
 ) -> str:
     """
-    Get the value from the corresponding filed of an ogr feature.
-    Only the first field in the feature would be returned if multiple matches.
+    Get the value from the corresponding filed of an ogr feature, as a string.
+    Only the first non-empty field in the feature would be returned if multiple matches.
+    The fields of a feature include those that only the other features in the same folder
+    have, and their values are None.
     """
-    try:
-        feature_key_set = {k.casefold() for k in feature.keys()}
-        field = feature.GetField(
-            (feature_key_set & input.value.possible_input_names).pop()
-        )
-        return field if field is not None else ""
-    except:
-        return ""
+    for key in feature.keys():
+        if key.casefold() in input.value.possible_input_names:
+            field = feature.GetField(key)
+            if field is not None and field != "":
+                return str(field)
+    return ""
 
 
 def _to_float_or_none(value: str) -> Optional[float]:
-- 
2.43.0


From a3689725946ebd787a335753de4ccc064cb6369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 20/89] fix: give every parameter of a device its default when
 SECTOR_PARAMS is omitted

---
 terragraph_planner/common/configuration/configs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 3cc33a7..a352c53 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -91,6 +91,12 @@ class ConfigParser:
         """
         args = getfullargspec(cls.__init__).args
         prop_dict_lower = {k.casefold(): v for k, v in propdict.items()}
+        if (
+            "sector_params" in args
+            and prop_dict_lower.get("sector_params") is None
+        ):
+            # All the sector parameters have default values
+            prop_dict_lower["sector_params"] = {}
         func_arg_val = {}
         for key, value in prop_dict_lower.items():
             # Enable case in-sensitive
-- 
2.43.0


From faace7c47af7d11920d977acba574ac43d90e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 21/89] fix: read GeoTIFF files that carry a collection time

---
 terragraph_planner/common/data_io/elevation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 71c9717..70fbe11 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -147,7 +147,7 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict["TIFFTAG_DATETIME"]
+            ds.GetMetadata_Dict()["TIFFTAG_DATETIME"]
             if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
             else None,
         )
-- 
2.43.0


From c4bcabcd796d2f8a5259ff6e26ce02cca90c9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 22/89] fix: do not wrap around the elevation matrix for bounds
 beyond its left or top edge

---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..b5781ba 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -261,8 +261,10 @@ class Elevation(GISData):
             (max_utm_x - self.left_top_x) / self.x_resolution
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
+        # Negative indices are outside of the matrix instead of counting from its end
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From 77c3b0557bb8c3e4df3e27d00048283c4b1e3179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 23/89] fix: do not reuse the line-of-sight of a co-located
 site of another building

---
 terragraph_planner/los/helper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..dc8b037 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,8 +556,10 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
+        # Two sites on the same building have no LOS, so the location type and
+        # building matter as well as the location
+        key1 = tuple(site1)
+        key2 = tuple(site2)
         if (key1, key2) in memoized_calculations:
             confidence = memoized_calculations[(key1, key2)]
         elif (key2, key1) in memoized_calculations:
-- 
2.43.0


From 1df9fb14022488f887f1ca690cd32d8719acf5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 24/89] fix: upsample DSM and DHM to the same resolution before
 subtracting them

---
 terragraph_planner/los/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/los/core.py b/terragraph_planner/los/core.py
index 1bc3af6..cf863a0 100644
--- a/terragraph_planner/los/core.py
+++ b/terragraph_planner/los/core.py
@@ -233,6 +233,7 @@ def load_gis_data(
         upsample_to_same_resolution(dtm, dhm)
         dsm = dtm + dhm
     elif dsm is not None and dtm is None and dhm is not None:
+        upsample_to_same_resolution(dsm, dhm)
         dtm = dsm - dhm
 
     errors = building_group_loader.errors + elevation_loader.errors
-- 
2.43.0


From fda964453b51860b4501b7e4b0fe961d7a78bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 25/89] fix: detect centers in place of highest points without
 surface elevation

---
 terragraph_planner/los/building_group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index 03bfdf8..cd2ce50 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -176,7 +176,11 @@ class BuildingGroup(GISData):
         )
 
         for building_id, building in enumerate(self.building_list):
-            if detect_center:
+            # Without surface elevation, the highest point is unknown and the
+            # center is used instead
+            if detect_center or (
+                detect_highest and surface_elevation is None
+            ):
                 site_candidates.append(
                     _convert_point_3d_to_site(
                         none_throws(building.detect_center(surface_elevation)),
-- 
2.43.0


From ae2bbffeed46e6276e8b812c81c4ba4be1a03c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 26/89] fix: read building shapefiles from archives with a
 directory entry

---
 .../common/data_io/building_group_loader.py          | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 1f92809..37eb4e8 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -15,6 +15,7 @@ from shapely import geometry, wkt
 
 from terragraph_planner.common.constants import LAT_LON_EPSG
 from terragraph_planner.common.data_io.building_group_rules import (
+    MAC_RESOURCE_FORK_DIR,
     BuildingGroupRules,
     ZippedShpFileRules,
 )
@@ -60,13 +61,20 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
             self.validate_shp_file(zip_ref.namelist())
             zip_ref.extractall(unzipped_dir)
             dir_names = [
-                ref.filename for ref in zip_ref.infolist() if ref.is_dir()
+                ref.filename
+                for ref in zip_ref.infolist()
+                if ref.is_dir()
+                and ref.filename.rstrip("/") != MAC_RESOURCE_FORK_DIR
             ]
             if len(dir_names) > 1:
                 raise DataException(
                     "Zip folder that contains shape files must not contain any other folders."
                 )
-        dir_name = unzipped_dir if len(dir_names) == 0 else dir_names[0]
+        dir_name = (
+            unzipped_dir
+            if len(dir_names) == 0
+            else os.path.join(unzipped_dir, dir_names[0])
+        )
 
         # Get input layer and CRS
         shp_file_path = glob.glob(os.path.join(dir_name, "*.shp"))[0]
-- 
2.43.0


From 5a1253f542cae8b4bb6067f8174bcdf31268e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 27/89] fix: connect new sites with the sites of the base
 topology

---
 terragraph_planner/los/helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index dc8b037..e656651 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -898,7 +898,8 @@ def add_sites_to_topology(
         if not isinstance(site, DetectedSite):
             if site.site_id not in topology.sites:
                 topology.add_site(site)
-                site_map[site_idx] = [site]
+            # Sites of the base topology can be an end of the new links too
+            site_map[site_idx] = [topology.sites[site.site_id]]
         else:
             detected_site = site
             # If the site is detected at the building rooftop by the planner
@@ -960,6 +961,7 @@ def add_links_to_topology(
                             )
                         ]
                         and abs(link.el_dev) <= max_el_scan_angle
+                        and link.link_id not in topology.links
                     ):
                         topology.add_link(link)
 
-- 
2.43.0


From d6cbd3c426dec35cb5fadf79de6221e7aad8b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 28/89] fix: compare exclusion zones with links in the same
 coordinates

---
 terragraph_planner/los/helper.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index e656651..96911dd 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -13,7 +13,7 @@ import numpy as np
 import numpy.typing as npt
 from osgeo import osr
 from pyre_extensions import none_throws
-from shapely import wkt
+from shapely import ops, wkt
 from shapely.geometry import Polygon
 from shapely.prepared import prep
 
@@ -30,6 +30,7 @@ from terragraph_planner.common.configuration.enums import (
     StatusType,
 )
 from terragraph_planner.common.constants import (
+    LAT_LON_EPSG,
     LOWER_BOUND_FOR_LOS_DISTANCE,
     UPPER_BOUND_FOR_LOS_DISTANCE,
 )
@@ -43,7 +44,11 @@ from terragraph_planner.common.exceptions import (
     LOSException,
     planner_assert,
 )
-from terragraph_planner.common.geos import GeoLocation
+from terragraph_planner.common.geos import (
+    GeoLocation,
+    TransformerLib,
+    lat_lon_to_utm_epsg,
+)
 from terragraph_planner.common.rf.link_budget_calculator import (
     fspl_based_estimation,
     get_max_tx_power,
@@ -296,9 +301,17 @@ def get_los_topology(
             elif (site2.site_type, site1.site_type) in DIRECTED_LINKS:
                 candidate_links.append(CandidateLOS(j, i, False))
 
-    exclusion_zones = get_exclusion_zones(
-        gis_data_params.site_file_path, ll_boundary
+    # The LOS validators work in UTM
+    transformer = TransformerLib.get_tranformer(
+        LAT_LON_EPSG,
+        lat_lon_to_utm_epsg(ll_boundary.centroid.y, ll_boundary.centroid.x),
     )
+    exclusion_zones = [
+        ops.transform(transformer.transform, zone)
+        for zone in get_exclusion_zones(
+            gis_data_params.site_file_path, ll_boundary
+        )
+    ]
 
     logger.info(
         f"{len(candidate_links)} links are prepared for computing line-of-sight."
-- 
2.43.0


From 1cf82ef35112205e3ddbc8761be094476f62399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 29/89] fix: add and subtract elevations of different
 resolution or alignment

---
 terragraph_planner/los/elevation.py | 26 ++++++++++++++++++++++++++
 terragraph_planner/los/helper.py    |  2 ++
 2 files changed, 28 insertions(+)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index b5781ba..38cfe07 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -189,6 +189,32 @@ class Elevation(GISData):
         self.x_resolution = x_resolution
         self.y_resolution = y_resolution
 
+    def align_to(self, other: "Elevation") -> None:
+        """
+        Re-sample data_matrix by nearest neighbor to the grid of the other elevation
+        """
+        if (
+            self.data_matrix.shape == other.data_matrix.shape
+            and self.x_resolution == other.x_resolution
+            and self.y_resolution == other.y_resolution
+            and self.left_top_x == other.left_top_x
+            and self.left_top_y == other.left_top_y
+        ):
+            return
+        data_matrix = np.zeros(
+            (other.y_size, other.x_size), dtype=self.data_matrix.dtype
+        )
+        for idx_y in range(other.y_size):
+            for idx_x in range(other.x_size):
+                data_matrix[idx_y][idx_x] = self.get_value(
+                    *other.idx_to_utm(idx_x, idx_y)
+                )
+        self.data_matrix = data_matrix
+        self.x_resolution = other.x_resolution
+        self.y_resolution = other.y_resolution
+        self.left_top_x = other.left_top_x
+        self.left_top_y = other.left_top_y
+
     def get_data_as_list(self) -> List[Tuple[float, float, float]]:
         """
         Get data in the format of List[Tuple[utm_x, utm_y, elevation]]
diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 96911dd..00f8906 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -990,3 +990,5 @@ def upsample_to_same_resolution(
     y_res = min(elevation1.y_resolution, elevation2.y_resolution)
     elevation1.set_resolution(x_res, y_res)
     elevation2.set_resolution(x_res, y_res)
+    # The two grids may still have different origins or sizes
+    elevation2.align_to(elevation1)
-- 
2.43.0


From f58e67cb15cd62da74ad989dbb17693f7c107a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 30/89] fix: keep grids without data when adding or subtracting
 elevations

---
 terragraph_planner/los/elevation.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 38cfe07..42ea280 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -309,10 +309,26 @@ class Elevation(GISData):
             and self.left_top_y == other_geogrids.left_top_y
         )
 
+    def _keep_no_data(
+        self, result: npt.NDArray[np.float32], other: "Elevation"
+    ) -> npt.NDArray[np.float32]:
+        """
+        A grid of the result has no data if it has no data in either operand
+        """
+        return np.where(
+            (self.data_matrix == NO_DATA_VALUE)
+            | (other.data_matrix == NO_DATA_VALUE),
+            NO_DATA_VALUE,
+            result,
+        )
+
     def __add__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix + other_geogrids.data_matrix,
+                self._keep_no_data(
+                    self.data_matrix + other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
@@ -330,7 +346,10 @@ class Elevation(GISData):
     def __sub__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix - other_geogrids.data_matrix,
+                self._keep_no_data(
+                    self.data_matrix - other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
-- 
2.43.0


From 9429c3983920f284dbb2b1f8d767d8bf78bb44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 31/89] fix: do not take all rooftop sites of the user input
 for sites of one building

---
 terragraph_planner/los/base_los_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..2e6b15e 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -10,6 +10,9 @@ from typing import List, Optional, Tuple
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -108,6 +111,9 @@ class BaseLOSValidator(ABC):
             site1.location_type
             == site2.location_type
             == LocationType.ROOFTOP.value
+            # The building of rooftop sites in the user input is unknown
+            and site1.building_id is not None
+            and site1.building_id > UNKNOWN_BUILDING_ID
             and site1.building_id == site2.building_id
         )
 
-- 
2.43.0


From 1cc4fcb50bebfc9a4403be84cfff5991a967cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 32/89] fix: write elevations of 0 as 0 instead of no data

---
 terragraph_planner/common/data_io/elevation_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 70fbe11..3dd224f 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -69,8 +69,10 @@ class ElevationLoader(DataValidator[Elevation]):
             outds.SetSpatialRef(data.spatial_reference)
 
             outband = outds.GetRasterBand(1)
-            outband.WriteArray(data.data_matrix)
+            # Has to be set before writing, because GDAL leaves out the blocks
+            # of zeros and fills them with the no-data value afterwards
             outband.SetNoDataValue(NO_DATA_VALUE)
+            outband.WriteArray(data.data_matrix)
             outband.FlushCache()
 
             outband = None
-- 
2.43.0


From 87fcbb7374030e264f8abbaf6f014cb0c7a55318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 33/89] fix: keep existing sectors when the sectors are
 re-oriented after the optimization

---
 .../optimization/topology_operations.py               | 11 ++++++++++-
 .../optimization/topology_preparation.py              |  4 +++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..a995768 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -374,6 +374,12 @@ def readjust_sectors_post_opt(
     sectors_to_add = []
 
     for site_id, site in topology.sites.items():
+        # Existing sectors are already deployed, so they cannot be re-oriented
+        if any(
+            sector.status_type == StatusType.EXISTING
+            for sector in sectors_for_sites[site_id]
+        ):
+            continue
         sector_params = site.device.sector_params
         neighbor_site_list = neighbor_sites[site_id]
 
@@ -462,7 +468,10 @@ def _set_sector_status_in_same_node(topology: Topology) -> None:
         if sector.status_type == StatusType.PROPOSED:
             proposed_nodes.add((sector.site.site_id, sector.node_id))
     for sector in topology.sectors.values():
-        if (sector.site.site_id, sector.node_id) in proposed_nodes:
+        if (
+            sector.site.site_id,
+            sector.node_id,
+        ) in proposed_nodes and sector.status_type == StatusType.CANDIDATE:
             sector.status_type = StatusType.PROPOSED
 
 
diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..ba460c7 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -364,7 +364,9 @@ def add_sectors_to_links(
             tx_sector.channel = rx_sector.channel = link_channel_map[
                 link.link_id
             ]
-            tx_sector.status_type = rx_sector.status_type = StatusType.PROPOSED
+            for sector in (tx_sector, rx_sector):
+                if sector.status_type == StatusType.CANDIDATE:
+                    sector.status_type = StatusType.PROPOSED
 
 
 def validate_site_sectors(sectors: List[Sector]) -> None:
-- 
2.43.0


From 2af2f3a55a30a2e3e3c981409ea9201bd121c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 34/89] fix: wrap the angles around north when orienting the
 sectors of a CN

---
 terragraph_planner/optimization/topology_preparation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index ba460c7..a616787 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -568,7 +568,13 @@ def find_best_equidistant_sectors(
     node_ids = (
         np.round((link_angles - rotation_angles) / arc_length) % num_nodes
     )
-    delta_angles = link_angles - node_ids * arc_length - rotation_angles
+    # Wrap the differences, bearings of 1 and 359 are 2 degrees apart
+    delta_angles = (
+        link_angles
+        - node_ids * arc_length
+        - rotation_angles
+        + FULL_ROTATION_ANGLE / 2
+    ) % FULL_ROTATION_ANGLE - FULL_ROTATION_ANGLE / 2
     delta_angles[abs(delta_angles) > inter_node_angle / 2] = FULL_ROTATION_ANGLE
     mets = np.sum(delta_angles**2, axis=1)
     best_met_idx = mets.argmin()
-- 
2.43.0


From 690a1816b560d4d69945eeb7f5293030faefca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:26 +0000
Subject: [PATCH 35/89] fix: accept nodes of three or more sectors around north

---
 .../optimization/topology_preparation.py       | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index a616787..ca8c66d 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -413,19 +413,11 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
         sin_sum = sum([math.sin(math.radians(a)) for a in azimuths])
         cos_sum = sum([math.cos(math.radians(a)) for a in azimuths])
         circ_mean = math.degrees(math.atan2(sin_sum, cos_sum)) % 360
-        l1 = [
-            a
-            for a in azimuths
-            if (a <= circ_mean and a > circ_mean - 180) or a > circ_mean + 180
-        ]
-        l1.sort()
-        l2 = [
-            a
-            for a in azimuths
-            if (a > circ_mean and a <= circ_mean + 180) or a <= circ_mean - 180
-        ]
-        l2.sort()
-        sector_azimuths[node_id] = l1 + l2
+        sector_azimuths[node_id] = sorted(
+            azimuths,
+            key=lambda a: (a - circ_mean + FULL_ROTATION_ANGLE / 2)
+            % FULL_ROTATION_ANGLE,
+        )
 
     # First verify that each sector within the node are exactly horizontal scan
     # range apart. Note: azimuths should already be sorted
-- 
2.43.0


From ad1f845b1fe37f314ced2750d3279ef155667b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:44 +0000
Subject: [PATCH 36/89] fix: keep multi-sector nodes whose sectors are on
 different channels

---
 terragraph_planner/optimization/topology_preparation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index ca8c66d..b399f42 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -990,8 +990,10 @@ def find_best_sectors(
             horizontal_scan_range,
         )
         for sector_idx in reversed(none_throws(best_position))
-        if sum(node_azimuth_link_mat[sector_idx])
-        > 0  # drop nodes that cover nothing
+        # drop nodes that cover nothing; two links on different channels may
+        # use different sectors of the same node
+        if sum(node_azimuth_link_mat[sector_idx]) > 0
+        or sector_azimuth_link_mat[sector_idx].sum() > 0
     ]
 
 
-- 
2.43.0


From 16822fe34c94ac1c8bc4ed0fb7ac03cad4efd892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 37/89] fix: analyze the interference of active CNs without an
 active incoming link

---
 terragraph_planner/optimization/topology_interference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_interference.py b/terragraph_planner/optimization/topology_interference.py
index e25d9c5..9892db3 100644
--- a/terragraph_planner/optimization/topology_interference.py
+++ b/terragraph_planner/optimization/topology_interference.py
@@ -418,7 +418,8 @@ def _compatible_polarity(
 
     tx_pol = tx_site.polarity
     if rx_site.site_type == SiteType.CN:
-        rx_pol = cn_polarities[rx_site.site_id]
+        # A CN without an active incoming link has no polarity
+        rx_pol = cn_polarities.get(rx_site.site_id, PolarityType.UNASSIGNED)
     else:
         rx_pol = rx_site.polarity
 
-- 
2.43.0


From 7ce19a6b9d9e83e5de1e72955fadeba615db8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 38/89] fix: end the uniform demand grid of sites next to the
 antimeridian

---
 terragraph_planner/optimization/topology_demand.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..4e11ef4 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -14,12 +14,14 @@ from terragraph_planner.common.configuration.constants import (
     UNKNOWN_BUILDING_ID,
 )
 from terragraph_planner.common.configuration.enums import LocationType, SiteType
+from terragraph_planner.common.constants import FULL_ROTATION_ANGLE
 from terragraph_planner.common.exceptions import (
     OptimizerException,
     planner_assert,
 )
 from terragraph_planner.common.geos import (
     GeoLocation,
+    angle_delta,
     grid_deltas,
     haversine_distance,
 )
@@ -147,22 +149,25 @@ def _add_uniform_demand_sites(
     bottom -= dy
     top += dy
 
+    # Do not wrap around the antimeridian until the location is created
+    if antimeridian:
+        right += FULL_ROTATION_ANGLE
+
     longitude = left
-    while longitude <= right or (antimeridian and longitude >= left):
+    while longitude <= right:
         latitude = bottom
         while latitude <= top:
             topology.add_demand_site(
                 DemandSite(
                     location=GeoLocation(
-                        latitude=latitude, longitude=longitude
+                        latitude=latitude,
+                        longitude=angle_delta(longitude, 0),
                     ),
                     demand=demand,
                 )
             )
             latitude += dy
         longitude += dx
-        if longitude > 180:
-            longitude -= 360
 
 
 def _add_dn_sites_to_cn_connected_demand(topology: Topology) -> None:
-- 
2.43.0


From 1e2b9dff715a4b4fc13e323ddb4d9a9b89630de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 39/89] fix: do not require sectors for active wired links

---
 terragraph_planner/optimization/topology_preparation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index b399f42..a2a7d49 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -1030,8 +1030,10 @@ def validate_topology_status(topology: Topology) -> None:
                 f"Existing link {link.link_id} must be connected to existing sites.",
                 TopologyException,
             )
+            # Wired links do not have sectors
             planner_assert(
-                link.tx_sector is not None
+                not link.is_wireless
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 == StatusType.EXISTING
                 and link.rx_sector is not None
@@ -1049,7 +1051,8 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
+                not link.is_wireless
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 in StatusType.active_status()
                 and link.rx_sector is not None
-- 
2.43.0


From 63a47014c405af56aac9f6b19586985906647ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 40/89] fix: report topologies with active wired links

---
 terragraph_planner/optimization/topology_report.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 4c54f58..3b7ff98 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -414,7 +414,11 @@ def get_topology_metrics(
         and s.status_type in StatusType.active_status()
     }
     for link in topology.links.values():
-        if link.status_type in StatusType.active_status():
+        # Wired links do not have sectors
+        if (
+            link.status_type in StatusType.active_status()
+            and link.link_type != LinkType.ETHERNET
+        ):
             tx_sector = none_throws(link.tx_sector)
             rx_sector = none_throws(link.rx_sector)
 
-- 
2.43.0


From f7149db360ce3c7e5d210b9ad6de3bee5f1f6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 41/89] fix: report the outages caused for both directions of a
 link

---
 terragraph_planner/optimization/topology_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 3b7ff98..5d459e4 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -298,7 +298,10 @@ def add_statistics_to_topology(
                 if routing_solution
                 else 0.0
             )
-            link.breakdowns = len(edge_failure_disruptions.get(link_key, []))
+            # A link and its reverse fail together and share a sorted key
+            link.breakdowns = len(
+                edge_failure_disruptions.get(link.sorted_site_ids, [])
+            )
 
     for site in topology.sites.values():
         site.breakdowns = (
-- 
2.43.0


From 7af1a5ea6275563f5c0bd9da9ba6572afe9ca7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 42/89] fix: keep unavailable links of unreachable sites
 unavailable

---
 terragraph_planner/optimization/topology_operations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index a995768..570069b 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -137,19 +137,21 @@ def mark_unreachable_components(
         ) and site.status_type is StatusType.CANDIDATE:
             site.status_type = StatusType.UNREACHABLE
 
-            # Mark connected links as unreachable
+            # Mark connected links as unreachable (unavailable links stay so)
             successor_sites = topology.get_successor_sites(site)
             for successor in successor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(site_id, successor.site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
             predecessor_sites = topology.get_predecessor_sites(site)
             for predecessor in predecessor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(predecessor.site_id, site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
 
     # Mark sectors on unreachable sites as unreachable
     for sector in topology.sectors.values():
-- 
2.43.0


From 48de7ffb0373b02c2e07ab3dbd5ec2281cf49dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 43/89] fix: deactivate disconnected sites without sectors and
 links of disconnected existing sites

---
 .../optimization/topology_optimization.py           | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 32dfae9..5942fb7 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -637,8 +637,7 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
     hop_counts = hops_from_pops(
         topology, status_filter=StatusType.active_status()
     )
-    for sector in topology.sectors.values():
-        site = sector.site
+    for site in topology.sites.values():
         if site.site_id not in hop_counts:
             current_site_status = site.status_type
             if current_site_status not in StatusType.immutable_status() | {
@@ -646,21 +645,21 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
             }:
                 site.status_type = StatusType.CANDIDATE
 
+    for sector in topology.sectors.values():
+        if sector.site.site_id not in hop_counts:
             current_sector_status = sector.status_type
             if current_sector_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
             }:
                 sector.status_type = StatusType.CANDIDATE
 
-    # Some active links may have ended up with candidate end-sites
+    # Some active links may have ended up with disconnected end-sites
     # Ensure that those links are also set to candidate.
     for link in topology.links.values():
         if link.status_type in StatusType.active_status():
-            tx_site = link.tx_site
-            rx_site = link.rx_site
             if (
-                tx_site.status_type == StatusType.CANDIDATE
-                or rx_site.status_type == StatusType.CANDIDATE
+                link.tx_site.site_id not in hop_counts
+                or link.rx_site.site_id not in hop_counts
             ):
                 current_link_status = link.status_type
                 if current_link_status not in StatusType.immutable_status() | {
-- 
2.43.0


From ebd1b1efa62651e93089858e6114586f83ca5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 44/89] fix: restore the attributes of the links removed to
 find disjoint paths

---
 .../optimization/topology_networkx.py              | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..dc2f346 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -422,26 +422,20 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
         # Example2: For a path: [SOURCE, POP, DN1, DN2, DN3, CN1, DEMAND]
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
-        link_ids = []
-        end = 0
+        removed_edges = []
         for n in range(1, len(shortest_path) - 2):
             tail_site_id = shortest_path[n + 1]
             if topology.sites[tail_site_id].site_type == SiteType.CN:
                 break
             edge = (shortest_path[n], shortest_path[n + 1])
-            link_id = "-".join(edge)
-            link_ids.append(link_id)
-            graph.remove_edge(shortest_path[n], shortest_path[n + 1])
-            end = n + 1
+            removed_edges.append((*edge, graph.get_edge_data(*edge)))
+            graph.remove_edge(*edge)
 
         if nx.has_path(graph, source=SUPERSOURCE, target=demand_id):
             demand_with_disjoint_paths.add(demand_id)
 
         # Recover the graph back to initial version
-        for n in range(1, end):
-            graph.add_edge(
-                shortest_path[n], shortest_path[n + 1], link_id=link_ids[n - 1]
-            )
+        graph.add_edges_from(removed_edges)
     return DisjointPath(
         demand_with_disjoint_paths=demand_with_disjoint_paths,
         disconnected_demand_locations=disconnected_demand_locations,
-- 
2.43.0


From d92606baadf6f1d0ea6432494d4d387cc0d8b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 45/89] fix: find disruptive links that are missing from the
 candidate graph

---
 .../optimization/topology_networkx.py          | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index dc2f346..a69da74 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -257,14 +257,18 @@ def find_most_disruptive_links(
         elif (u, v) in disruptive_edges:
             continue
 
-        has_rev = candidate_graph.has_edge(v, u)
+        has_rev = proposed_graph.has_edge(v, u)
 
         # If removing this edge from the candidate graph in addition
         # to the previous edges in disruptive_edges cuts off one or more
-        # demands in the candidate graph, do not add this to disruptive_edges
-        candidate_graph_copy.remove_edge(u, v)
-        if has_rev:
-            candidate_graph_copy.remove_edge(v, u)
+        # demands in the candidate graph, do not add this to disruptive_edges.
+        # The edge may be missing there, e.g., if it has no capacity.
+        removed_edges = [
+            edge
+            for edge in ((u, v), (v, u))
+            if candidate_graph_copy.has_edge(*edge)
+        ]
+        candidate_graph_copy.remove_edges_from(removed_edges)
         descendents = nx.descendants(candidate_graph_copy, source=SUPERSOURCE)
 
         candidate_disruptions = candidate_connected_demands - descendents
@@ -274,9 +278,7 @@ def find_most_disruptive_links(
             if has_rev:
                 disruptive_edges.add((v, u))
         else:
-            candidate_graph_copy.add_edge(u, v)
-            if has_rev:
-                candidate_graph_copy.add_edge(v, u)
+            candidate_graph_copy.add_edges_from(removed_edges)
     end = time.time()
     logger.info(
         f"Found {len(disruptive_edges)} adversarial edges in {end-start:0.2f} seconds."
-- 
2.43.0


From 2d4a9f9a645035b52fb9429bfb8d8faa5301edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 46/89] fix: rescale the link availability of simulations that
 reach the time limit

---
 terragraph_planner/optimization/topology_availability.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..9ea0445 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -186,6 +186,10 @@ def compute_availability(
                 availability[demand_id] = (
                     val * sim_length / actual_simulation_time
                 )
+            for edge, val in sim_link_availability.items():
+                sim_link_availability[edge] = (
+                    val * sim_length / actual_simulation_time
+                )
             logger.warning(
                 "Availability computation terminated due to reaching time limit."
             )
-- 
2.43.0


From bb181bcdd883ffb9076bd6c2a8712c38f619a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 47/89] fix: simulate links that are never available

---
 .../optimization/topology_availability.py             | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index 9ea0445..87819d9 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -83,8 +83,9 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Events at the same time keep the order in which they are generated
+    events: List[Tuple[float, int, Tuple[str, str], int]] = [
+        (sim_length, 0, ("", ""), _SIM_END)
     ]
 
     # Generate failure and repair events for each backhaul edge; add to heap
@@ -107,11 +108,11 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, len(events), key, _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, len(events), key, _REPAIRED))
 
         processed_edges.add(key)
 
@@ -129,7 +130,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, _, (u, v), event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
-- 
2.43.0


From 4211b8590c93007514511c5f27587ef5cc354a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 48/89] fix: ignore links of fixed status when looking for
 reachable demand

---
 .../ilp_models/network_optimization.py        | 28 +++----------------
 .../optimization/topology_operations.py       | 21 +++++++++++---
 2 files changed, 21 insertions(+), 28 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..1b6a886 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -10,7 +10,6 @@ from time import time
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
-from pyre_extensions import none_throws
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -155,31 +154,12 @@ class NetworkOptimization(OptimizationSetup):
         """
         if status_filter is None:
             status_filter = StatusType.reachable_status()
-        ignore_links = self._get_ignore_links()
-        ignore_sites = self._get_ignore_sites()
-        sites_status: Dict[str, StatusType] = {}
-        links_status: Dict[Tuple[str, str], StatusType] = {}
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            if link is not None:
-                links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
-        for site_id in ignore_sites:
-            site = self.topology.sites.get(site_id, None)
-            if site is not None:
-                sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
         reachable_demand_sites = get_reachable_demand_sites(
-            self.topology, status_filter
+            self.topology,
+            status_filter,
+            ignore_links=self._get_ignore_links(),
+            ignore_sites=self._get_ignore_sites(),
         )
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = none_throws(
-                self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
-        for site_id in ignore_sites:
-            site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 570069b..481bb40 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -6,7 +6,7 @@
 import logging
 import math
 from collections import defaultdict
-from typing import Dict, List, Optional, Set, Tuple
+from typing import Collection, Dict, List, Optional, Set, Tuple
 
 from pyre_extensions import none_throws
 
@@ -57,6 +57,8 @@ logger: logging.Logger = logging.getLogger(__name__)
 def hops_from_pops(
     topology: Topology,
     status_filter: Optional[Set[StatusType]],
+    ignore_links: Collection[Tuple[str, str]] = (),
+    ignore_sites: Collection[str] = (),
 ) -> Dict[str, int]:
     if status_filter is None:
         status_filter = set(StatusType)
@@ -64,7 +66,7 @@ def hops_from_pops(
     current_site_ids = topology.get_site_ids(
         status_filter=status_filter,
         site_type_filter={SiteType.POP},
-    )
+    ) - set(ignore_sites)
     site_count = len(current_site_ids)
     if site_count == 0:
         logger.info("No POP sites in topology using the given status filter")
@@ -82,6 +84,8 @@ def hops_from_pops(
             if (
                 link.tx_site.site_id in current_site_ids
                 and link.status_type in status_filter
+                and (link.tx_site.site_id, link.rx_site.site_id)
+                not in ignore_links
             )
         ]
         new_ids = {
@@ -91,6 +95,7 @@ def hops_from_pops(
             if (
                 topology.sites[site_id].status_type in status_filter
                 and site_id not in current_site_ids
+                and site_id not in ignore_sites
             )
         }
         if len(new_ids) > 0:
@@ -103,12 +108,20 @@ def hops_from_pops(
 
 
 def get_reachable_demand_sites(
-    topology: Topology, status_filter: Set[StatusType]
+    topology: Topology,
+    status_filter: Set[StatusType],
+    ignore_links: Collection[Tuple[str, str]] = (),
+    ignore_sites: Collection[str] = (),
 ) -> Set[str]:
     """
     Get all demand sites that can be reached from any POP.
     """
-    hops_counts = hops_from_pops(topology, status_filter=status_filter)
+    hops_counts = hops_from_pops(
+        topology,
+        status_filter=status_filter,
+        ignore_links=ignore_links,
+        ignore_sites=ignore_sites,
+    )
     reachable_demand_sites = set()
     for demand_site in topology.demand_sites.values():
         for site in demand_site.connected_sites:
-- 
2.43.0


From 7eb6cc72cd82fd53409b986dcc50ba6d73cf4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 49/89] fix: count the cost of nodes whose first sector is
 inactive

---
 terragraph_planner/optimization/topology_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 481bb40..06db904 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -499,7 +499,9 @@ def compute_capex(topology: Topology, params: OptimizerParams) -> Capex:
 
     seen_nodes = set()
     for sector in topology.sectors.values():
-        # Only add node capex for one sector per node
+        if sector.status_type not in StatusType.active_status():
+            continue
+        # Only add node capex for one active sector per node
         if (sector.site.site_id, sector.node_id) in seen_nodes:
             continue
 
-- 
2.43.0


From 36461a843f0daf1d88c404b25b7c09a2307e5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 50/89] fix: route flow through existing sectors

---
 .../optimization/ilp_models/flow_optimization.py           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 96c8e54..25639c0 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -181,10 +181,11 @@ class MaxFlowNetwork(NetworkOptimization):
         }
 
     def create_sector_decisions(self) -> None:
+        active_sectors = self.topology.get_sector_ids(
+            status_filter=StatusType.active_status()
+        )
         self.sector_vars = {
-            (loc, sec, 0): 1
-            if sec in self.proposed_sectors.get(loc, set())
-            else 0
+            (loc, sec, 0): 1 if sec in active_sectors.get(loc, set()) else 0
             for loc in self.locations
             for sec in self.location_sectors[loc]
             if self.sector_to_type[sec] not in IMAGINARY_SECTOR_TYPES
-- 
2.43.0


From fcda25ccc3f4bdece729c4b9bbd5cedf6dbba0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 51/89] fix: flag links whose rx sector violates the sector
 link limit

---
 terragraph_planner/optimization/topology_report.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 5d459e4..d9a323d 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -641,9 +641,9 @@ def build_links_df(
             elif link_key == LinkKey.VIOLATES_NEAR_FAR:
                 output_value = link_id in near_far_violating_links
             elif link_key == LinkKey.VIOLATES_SECTOR_LIMIT:
-                output_value = (
-                    link.tx_sector is not None
-                    and link.tx_sector.sector_id in violating_sectors
+                output_value = any(
+                    sector is not None and sector.sector_id in violating_sectors
+                    for sector in (link.tx_sector, link.rx_sector)
                 )
             link_keys[output_name] = output_value
         raw_links[link_id] = link_keys
-- 
2.43.0


From 95f3a48f95f8d93bdd3e29b60fc758f684f3146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 52/89] fix: report plans without active links

---
 terragraph_planner/optimization/topology_report.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index d9a323d..d69eff0 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -382,9 +382,15 @@ def get_topology_metrics(
             * len(flow_solution.connected_demand_sites),
             minimum_bandwdith_for_connected_demand=flow_solution.buffer_decision,
             link_capacity_utilization=MetricStatistics(
-                avg=sum(active_link_utilization) / len(active_link_utilization),
-                max=max(active_link_utilization),
-                min=min(active_link_utilization),
+                avg=sum(active_link_utilization) / len(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                max=max(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                min=min(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
             ),
         )
     else:
-- 
2.43.0


From 21666850d304521617b64164ed565f28269f5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 53/89] fix: enforce that the sectors of a node are active
 together

---
 .../optimization/ilp_models/network_optimization.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 1b6a886..8a24983 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -385,7 +385,7 @@ class NetworkOptimization(OptimizationSetup):
                 if self.sector_to_type[sec] in IMAGINARY_SECTOR_TYPES:
                     continue  # skip imaginary sectors - they're their own thing
                 node_id = self.topology.sectors[sec].node_id
-                if (loc, sec) in self.sector_vars:
+                if (loc, sec, 0) in self.sector_vars:
                     nodes.setdefault((loc, node_id), []).append((loc, sec))
         for linked_sectors in nodes.values():
             for s1, s2 in itertools.combinations(linked_sectors, 2):
@@ -400,7 +400,7 @@ class NetworkOptimization(OptimizationSetup):
                     == xp.Sum(
                         self.sector_vars[loc2, sec2, channel]
                         for channel in range(self.number_of_channels)
-                        if (loc1, sec1, channel) in self.sector_vars
+                        if (loc2, sec2, channel) in self.sector_vars
                     )
                 )
 
-- 
2.43.0


From af51cd6d25553b40480d4e1c74bf33c4c08a1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 54/89] fix: never select unavailable POPs

---
 .../optimization/ilp_models/network_optimization.py   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 8a24983..353a468 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -825,14 +825,15 @@ class NetworkOptimization(OptimizationSetup):
         # links because topology validation ensures their connected sites are
         # already active
         for loc in self.locations:
-            if (
+            if loc in self.inactive_sites:
+                self.problem.addConstraint(self.site_vars[loc] == 0)
+            elif (
                 self.params.always_active_pops
                 and loc in self.type_sets[SiteType.POP]
             ):
+                # Colocated sites handled in create_colocated_site_relationship
                 if (
-                    loc not in self.inactive_sites
-                    # Colocated sites handled in create_colocated_site_relationship
-                    and len(
+                    len(
                         self.colocated_locations.get(
                             self.location_to_geoloc[loc], []
                         )
@@ -851,8 +852,6 @@ class NetworkOptimization(OptimizationSetup):
                     <= 1
                 ):
                     self.problem.addConstraint(self.site_vars[loc] == 1)
-            elif loc in self.inactive_sites:
-                self.problem.addConstraint(self.site_vars[loc] == 0)
 
     def create_active_link_polarity_constraints(self) -> None:
         if self.params.ignore_polarities:
-- 
2.43.0


From 66d2e9338354a0b2382746e4b7937da0b61d8d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 55/89] fix: count POPs that serve demand directly in the POP
 capacity

---
 .../optimization/topology_operations.py             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 06db904..23d8977 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -180,9 +180,16 @@ def compute_max_pop_capacity_of_topology(
     Given a single POP, this is done by first finding the max capacity outgoing
     link from each individual sector, adding them together along with the
     capacity of all the outgoing wired links. The smaller of this and the POP
-    capacity is the max outgoing capacity. This is summed across all of the
-    POPs in the topology.
+    capacity is the max outgoing capacity. A POP that serves demand directly is
+    not limited by its outgoing links. This is summed across all of the POPs in
+    the topology.
     """
+    demand_connected_sites = {
+        site.site_id
+        for demand in topology.demand_sites.values()
+        for site in demand.connected_sites
+        if site.status_type in status_filter
+    }
     site_sector_capacities = {}
     site_wired_capacities = {}
     for link_data in topology.links.values():
@@ -231,6 +238,8 @@ def compute_max_pop_capacity_of_topology(
         if pop_id in site_wired_capacities:
             # Sum outgoing capacity from each POP wired link
             pop_outgoing_capacity += sum(site_wired_capacities[pop_id])
+        if pop_id in demand_connected_sites:
+            pop_outgoing_capacity = pop_capacity
         # POP outgoing capacity cannot exceed incoming capacity
         max_capacity += min(pop_outgoing_capacity, pop_capacity)
 
-- 
2.43.0


From efd119982d454db09daa4654eec0a78c6974d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 56/89] fix: cost optimization with common bandwidth

---
 .../optimization/ilp_models/cost_optimization.py    | 13 ++++++++++++-
 .../optimization/ilp_models/network_optimization.py |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/cost_optimization.py b/terragraph_planner/optimization/ilp_models/cost_optimization.py
index 8defa95..2d26f65 100644
--- a/terragraph_planner/optimization/ilp_models/cost_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/cost_optimization.py
@@ -73,7 +73,18 @@ class MinCostNetwork(SiteOptimization):
             pop_capacity=self.params.pop_capacity,
             status_filter=StatusType.reachable_status(),
         )
-        if max_capacity < self.max_throughput * self.params.coverage_percentage:
+        required_throughput = self.max_throughput
+        if self.params.maximize_common_bandwidth:
+            # Every connected demand site needs the same share of the minimum
+            # demand
+            connected_demand = [
+                self.demand_at_location[loc]
+                for loc in self.connected_demand_sites
+            ]
+            required_throughput = len(connected_demand) * min(
+                connected_demand, default=0.0
+            )
+        if max_capacity < required_throughput * self.params.coverage_percentage:
             # The maximum capacity that the POPs can support is less than the
             # total demand in the area. Flow balance constraints can not be
             # satisfied.
diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 353a468..a468762 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -743,6 +743,8 @@ class NetworkOptimization(OptimizationSetup):
         if len(self.type_sets[DEMAND]) == 0:
             return
         if self.params.maximize_common_bandwidth:
+            if len(self.connected_demand_sites) == 0:
+                return
             # Common bandwidth cannot exceeed the minimum of the demand at all
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
-- 
2.43.0


From e312332965a794d58949484553a52345bbf5f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 57/89] fix: wired links do not restrict polarities

---
 .../optimization/ilp_models/network_optimization.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index a468762..7112368 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -860,6 +860,8 @@ class NetworkOptimization(OptimizationSetup):
             return
         # If a link should be active, then the end sites must be of opposite polarities
         for (i, j) in self.links:
+            if (i, j) in self.wired_links:
+                continue
             if (i, j) in self.proposed_links or (i, j) in self.existing_links:
                 if i in self.odd and j in self.odd:
                     # Because only co-located CN sites can be upgraded and CN
-- 
2.43.0


From ff5878d8008b62057c46a896c35f49f51df85a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 58/89] fix: ignore sites co-located with always active POPs

---
 .../ilp_models/network_optimization.py           | 16 ++++++++++++----
 .../optimization/ilp_models/site_optimization.py |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 7112368..2834c5d 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -625,10 +625,11 @@ class NetworkOptimization(OptimizationSetup):
 
         return max_site_type, valid_site_types
 
-    def create_colocated_site_relationship(self) -> None:
-        # The logic for co-located sites must match that of _get_ignore_sites()
-        # in SiteOptimization and the logic for finding adversarial links.
-
+    def _get_input_active_sites(self) -> Set[str]:
+        """
+        Sites that must be active because of the input, unless they are
+        upgraded.
+        """
         input_active_sites = self.proposed_sites | self.existing_sites
         for (i, j) in self.proposed_links | self.existing_links:
             input_active_sites.add(i)
@@ -640,6 +641,13 @@ class NetworkOptimization(OptimizationSetup):
                     and i not in self.inactive_sites
                 ):
                     input_active_sites.add(i)
+        return input_active_sites
+
+    def create_colocated_site_relationship(self) -> None:
+        # The logic for co-located sites must match that of _get_ignore_sites()
+        # in SiteOptimization and the logic for finding adversarial links.
+
+        input_active_sites = self._get_input_active_sites()
         for locs in self.colocated_locations.values():
             if len(locs) <= 1:
                 continue
diff --git a/terragraph_planner/optimization/ilp_models/site_optimization.py b/terragraph_planner/optimization/ilp_models/site_optimization.py
index 5849d29..72b5d0a 100644
--- a/terragraph_planner/optimization/ilp_models/site_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/site_optimization.py
@@ -89,7 +89,7 @@ class SiteOptimization(NetworkOptimization):
         """
         ignore_sites = super(SiteOptimization, self)._get_ignore_sites()
 
-        input_active_sites = self.proposed_sites | self.existing_sites
+        input_active_sites = self._get_input_active_sites()
         for locs in self.colocated_locations.values():
             active_colocated_sites = input_active_sites.intersection(set(locs))
             if len(active_colocated_sites) == 0:
-- 
2.43.0


From 5948f9d795fc20e6f03a8cd951ccdaad8c90b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 59/89] fix: try the exact coverage percentages

---
 terragraph_planner/optimization/topology_optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 5942fb7..be29094 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -221,7 +221,8 @@ def _run_min_cost_step(
             coverage_percentage=coverage_percentage
         )
         timed_out = min_cost_network.did_problem_timeout()
-        coverage_percentage -= COVERAGE_STEP_SIZE
+        # Avoid accumulation of rounding errors
+        coverage_percentage = round(coverage_percentage - COVERAGE_STEP_SIZE, 6)
 
     if solution is not None:
         update_topology_with_solution(solution, topology)
-- 
2.43.0


From bfeb6ab8f8f5e00f1d70c8dd5bac60ec51d8c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 60/89] fix: add redundancy in the presence of disconnected DNs

---
 .../ilp_models/redundancy_optimization.py         | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index a8568a9..2341f35 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -101,11 +101,10 @@ class RedundantNetwork(SiteOptimization):
         self.restricted_sites: Set[str] = {
             loc for link in self.restricted_links for loc in link
         }
-        planner_assert(
-            set(self.dns).issubset(self.restricted_sites),
-            "Restricted sites must include all active DNs",
-            OptimizerException,
-        )
+
+        # Redundancy cannot be built for active DNs (e.g., existing sites) that
+        # are disconnected from the network
+        self.dns = [loc for loc in self.dns if loc in self.restricted_sites]
 
         # Variables created when building the optimization model
         self.problem = None  # pyre-fixme
@@ -566,9 +565,9 @@ class RedundantNetwork(SiteOptimization):
                 self.location_to_type[loc] in SiteType.dist_site_types()
                 and loc not in site_decisions
             ):
-                # In this case, DN should not be in forced_active_sites because
-                # if it was, it would be in self.dns; however, a POP that just
-                # connects to demand sites might not be in the restricted sites
+                # Existing DNs that are disconnected from the network or POPs
+                # that just connect to demand sites might not be in the
+                # restricted sites
                 site_decisions[loc] = 1 if loc in forced_active_sites else 0
 
         odd_site_decisions = (
-- 
2.43.0


From 5141498e3a103844610c821bdd7a17a853423a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 61/89] fix: do not look for redundant paths through POPs that
 are not active

---
 .../optimization/ilp_models/redundancy_optimization.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 2341f35..713ac96 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -670,6 +670,7 @@ def compute_candidate_edges_for_redundancy(
         return ("_out", node_id)
 
     G = nx.DiGraph()
+    G.add_node(SUPERSOURCE)
     for site_id, site in topology.sites.items():
         if site.status_type in StatusType.inactive_status():
             continue
@@ -677,6 +678,13 @@ def compute_candidate_edges_for_redundancy(
         if site.site_type not in SiteType.dist_site_types():
             continue
 
+        # Extra POPs cannot be proposed for redundancy
+        if (
+            site.site_type == SiteType.POP
+            and site.status_type not in StatusType.active_status()
+        ):
+            continue
+
         # For node-disjoint paths, each node is split into an incoming edges
         # node and a outgoing edges node with a single edge of unit capacity
         # between them (except for POPs with pop_source_capacity)
-- 
2.43.0


From 5b45c63320857f9ecef5c307f24559f38780a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 62/89] fix: find redundant paths between DNs on the same line

---
 .../ilp_models/redundancy_optimization.py     | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 713ac96..92d805d 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -802,22 +802,28 @@ def compute_candidate_edges_for_redundancy(
         if len(dns) > 2:
             # Compute Delaunay triangulation (in 2D space)
             # Note: two proposed DNs with the same lat/lon should not occur
-            tri = Delaunay(
-                np.array(
+            points = np.array(
+                [
                     [
-                        [
-                            topology.sites[dn].latitude,
-                            topology.sites[dn].longitude,
-                        ]
-                        for dn in dns
+                        topology.sites[dn].latitude,
+                        topology.sites[dn].longitude,
                     ]
-                )
+                    for dn in dns
+                ]
             )
 
             # Build graph from Delaunay triangulation
             delaunay_graph = nx.Graph()
-            for T in tri.simplices:
-                nx.add_cycle(delaunay_graph, T)
+            try:
+                for T in Delaunay(points).simplices:
+                    nx.add_cycle(delaunay_graph, T)
+            except RuntimeError:
+                # There is no triangulation if all DNs are on the same line, so
+                # use the order of the DNs on that line instead
+                nx.add_path(
+                    delaunay_graph,
+                    sorted(range(len(dns)), key=lambda k: tuple(points[k])),
+                )
 
             # Pair vertices together that are one hop or two hops away in
             # Delaunay triangulation; if graph is symmetric, only add one of
-- 
2.43.0


From 38c88b3d576a5d6989fc47ea40569afb398743d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 63/89] fix: do not add redundant sites because of solver
 tolerances

---
 .../optimization/ilp_models/redundancy_optimization.py   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 92d805d..77794f2 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -455,8 +455,13 @@ class RedundantNetwork(SiteOptimization):
             shortage_decisions = self._extract_flat_dictionary(
                 solution_vector, self.shortage, binary=False
             )
-            # Set shortage to decisions output for second solve
-            self.shortage = shortage_decisions
+            # Set shortage to decisions output for second solve. The minimum
+            # shortage is integral; round up so that solver tolerances do not
+            # require additional sites.
+            self.shortage = {
+                dn: math.ceil(shortage - EPSILON)
+                for dn, shortage in shortage_decisions.items()
+            }
         else:
             self.shortage = None
         end_time = time.time()
-- 
2.43.0


From 9d6fd678880b69e6b2203051f7d8086de13179f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 64/89] fix: do not send flow through inactive sites when
 minimizing interference

---
 .../optimization/ilp_models/interference_optimization.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e90f03f..476d4b7 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -178,6 +178,7 @@ class MinInterferenceNetwork(NetworkOptimization):
         self.create_tdm_flow_relationship()
         self.create_tdm_link_relationship()
         self.create_flow_balance_with_shortage()
+        self.create_flow_site_relationship()
         self.create_pop_load_constraints()
         self.create_flow_link_relationship()
         self.create_symmetric_link_constraints()
-- 
2.43.0


From 09028077a56e9ce307c1d026cf5d00d0f051e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 65/89] fix: minimize interference of networks with existing
 wired links

---
 .../optimization/ilp_models/interference_optimization.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index 476d4b7..a24f8c9 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -364,6 +364,9 @@ class MinInterferenceNetwork(NetworkOptimization):
             # to a co-located site with a site type that is getting upgraded.
             if self.site_vars[i] == 0 or self.site_vars[j] == 0:
                 continue
+            # Wired links have neither link decisions nor sectors
+            if (i, j) in self.wired_links:
+                continue
 
             if (i, j) in self.active_link:
                 self.problem.addConstraint(self.active_link[(i, j)] == 1)
-- 
2.43.0


From 0360d9224ca6c5b581306c71f2a7acdea1cf1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 66/89] fix: do not activate unavailable wired links when
 minimizing interference

---
 .../optimization/ilp_models/interference_optimization.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index a24f8c9..fda1115 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -1108,6 +1108,8 @@ class MinInterferenceNetwork(NetworkOptimization):
                 or self.location_to_type[j] in IMAGINARY_SITE_TYPES
             ):
                 continue
+            if (i, j) in self.inactive_links:
+                continue
             tx_active = self.site_vars[i]
             rx_active = self.site_vars[j]
             if tx_active == 1 and rx_active == 1:
-- 
2.43.0


From 29744a83ec2498bc6a6b660879d040c5871ba217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 67/89] fix: serve demand rather than add links when minimizing
 interference

---
 .../ilp_models/interference_optimization.py         | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index fda1115..abf0758 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -1080,8 +1080,19 @@ class MinInterferenceNetwork(NetworkOptimization):
             for link in self.active_link
         )
 
+        # Serving the demand has priority over adding links: losing 1% of the
+        # total demand outweighs all of the links. The throughput alone cannot
+        # be used as weight because it may be arbitrarily small.
+        coverage_weight = (
+            100
+            * (1 + sum(self.link_weights[link] for link in self.active_link))
+            / self.max_throughput
+            if self.max_throughput > 0
+            else 1
+        )
+
         self.problem.setObjective(
-            self.max_throughput * self.coverage_obj - weighted_number_of_links,
+            coverage_weight * self.coverage_obj - weighted_number_of_links,
             sense=xp.minimize,
         )
 
-- 
2.43.0


From a3e7c817a11a2a955351dca28595736aca223fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 68/89] fix: do not propose POPs at active DNs

An active DN was turned into an active POP of the access network: it used up
the extra POPs (or made the problem infeasible), although its copy can never
be selected next to the active DN.
---
 .../ilp_models/pop_proposal_optimization.py   | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..f472165 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -56,6 +56,7 @@ def add_duplicate_pop_to_dn_site(
         if (
             solution.site_decisions.get(site_id, 0) == 1
             and site.site_type == SiteType.DN
+            and site.status_type not in StatusType.active_status()
         ):
             # Create POP at same location as DN
             new_pop = Site(
@@ -146,23 +147,29 @@ def _compute_access_candidate_topology(topology: Topology) -> Topology:
     topology_copy = deepcopy(topology)
     colocated_sites = topology_copy.get_colocated_sites()
 
-    # Find DNs that are co-located with other POPs
-    dns_on_pops = set()
+    # Find DNs that are at the location of a POP or of an active DN, which a
+    # candidate POP cannot replace
+    occupied_dns = set()
     for sites in colocated_sites.values():
-        any_pops = any(
+        is_occupied = any(
             topology_copy.sites[site_id].site_type == SiteType.POP
+            or (
+                topology_copy.sites[site_id].site_type == SiteType.DN
+                and topology_copy.sites[site_id].status_type
+                in StatusType.active_status()
+            )
             for site_id in sites
         )
-        if any_pops:
+        if is_occupied:
             for site_id in sites:
                 if topology_copy.sites[site_id].site_type == SiteType.DN:
-                    dns_on_pops.add(site_id)
+                    occupied_dns.add(site_id)
 
     for site in topology_copy.sites.values():
         if site.site_type == SiteType.DN:
-            # No need to remove the DN if it's co-located with a POP because
-            # its incoming links will be removed
-            if site.site_id not in dns_on_pops:
+            # No need to remove the other DNs because their incoming links
+            # will be removed
+            if site.site_id not in occupied_dns:
                 # This is a hacky way to convert the DN into a POP; however, for
                 # the purposes here, it is a convenient work-around. Ideally,
                 # a copy of the site would be created and added along with copies
-- 
2.43.0


From 35e8a8aa89ea0607e761c9e7eed84bf6716114e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 69/89] fix: propose extra POPs in networks with existing POPs

Setting the immutable status of an existing POP raised a TopologyException.
---
 .../optimization/ilp_models/pop_proposal_optimization.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index f472165..6b4da25 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -271,6 +271,10 @@ class POPProposalNetwork(SiteOptimization):
                 site.site_type == SiteType.POP
                 and site.status_type not in StatusType.inactive_status()
             ):
+                # Existing POPs are already forced to be active and their
+                # status cannot be changed
+                if site.status_type == StatusType.EXISTING:
+                    continue
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
                 # but do it just to be consistent
-- 
2.43.0


From 9a14eaf58cb106c1d1f5ff2b09a6f268f34a5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 70/89] fix: count co-located POPs once in the POP proposal

Only one site of a location can be selected, so the required number of POPs
could not be reached and no POP was proposed.
---
 .../ilp_models/pop_proposal_optimization.py   | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 6b4da25..a281d1b 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -215,24 +215,22 @@ class POPProposalNetwork(SiteOptimization):
         params.always_active_pops = always_active_pops
         params.maximize_common_bandwidth = maximize_common_bandwidth
 
-    def create_pop_constraint(self) -> None:
-        num_input_pops = len(
-            [
-                site.site_id
-                for site in self.input_topology.sites.values()
-                if site.site_type == SiteType.POP
-                and site.status_type not in StatusType.inactive_status()
-            ]
-        )
-        num_access_pops = len(
-            [
-                site.site_id
-                for site in self.topology.sites.values()
-                if site.site_type == SiteType.POP
-                and site.status_type not in StatusType.inactive_status()
-            ]
+    def _count_pop_locations(self, topology: Topology) -> int:
+        return sum(
+            any(
+                topology.sites[site_id].site_type == SiteType.POP
+                and topology.sites[site_id].status_type
+                not in StatusType.inactive_status()
+                for site_id in sites
+            )
+            for sites in topology.get_colocated_sites().values()
         )
 
+    def create_pop_constraint(self) -> None:
+        # At most one of several co-located POPs can be selected
+        num_input_pops = self._count_pop_locations(self.input_topology)
+        num_access_pops = self._count_pop_locations(self.topology)
+
         # Number of POPs to be proposed should equal to the number of extra
         # POPs plus the input POPs. That number should not exceed the number of
         # POPs in the access topology.
-- 
2.43.0


From b4443d926490def34561a25eccf0839295725cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 71/89] fix: copy incoming links of a proposed POP from their
 own originals

The copies took over attributes of the last outgoing link, and a DN without
any outgoing link raised UnboundLocalError.
---
 .../optimization/ilp_models/pop_proposal_optimization.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index a281d1b..a7630eb 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -125,8 +125,8 @@ def add_duplicate_pop_to_dn_site(
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
                 status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From 4d27d857181ca7c85c4a3c3a7c645797da9041f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 72/89] fix: copy the usable links of a DN to its proposed POP

Unavailable links were copied as candidates that the plan could select. Wired
links were not copied, so the sites behind them were cut off when the POP took
the place of the DN.
---
 .../ilp_models/pop_proposal_optimization.py   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index a7630eb..a733a3a 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -95,12 +95,18 @@ def add_duplicate_pop_to_dn_site(
             tx_link = none_throws(
                 topology.get_link_by_site_ids(dn_id, neighbor_site.site_id)
             )
-            if tx_link.tx_sector is None or tx_link.rx_sector is None:
+            if tx_link.status_type in StatusType.inactive_status():
+                continue
+            if tx_link.is_wireless and (
+                tx_link.tx_sector is None or tx_link.rx_sector is None
+            ):
                 continue
             new_tx_link = Link(
                 tx_site=pop_site,
                 rx_site=neighbor_site,
-                tx_sector=duplicated_sectors[tx_link.tx_sector.sector_id],
+                tx_sector=duplicated_sectors[tx_link.tx_sector.sector_id]
+                if tx_link.tx_sector is not None
+                else None,
                 rx_sector=tx_link.rx_sector,
                 status_type=StatusType.CANDIDATE,
                 is_wireless=tx_link.is_wireless,
@@ -117,13 +123,19 @@ def add_duplicate_pop_to_dn_site(
             rx_link = none_throws(
                 topology.get_link_by_site_ids(neighbor_site.site_id, dn_id)
             )
-            if rx_link.tx_sector is None or rx_link.rx_sector is None:
+            if rx_link.status_type in StatusType.inactive_status():
+                continue
+            if rx_link.is_wireless and (
+                rx_link.tx_sector is None or rx_link.rx_sector is None
+            ):
                 continue
             new_rx_link = Link(
                 tx_site=neighbor_site,
                 rx_site=pop_site,
                 tx_sector=rx_link.tx_sector,
-                rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
+                rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id]
+                if rx_link.rx_sector is not None
+                else None,
                 status_type=StatusType.CANDIDATE,
                 is_wireless=rx_link.is_wireless,
                 confidence_level=rx_link.confidence_level,
-- 
2.43.0


From 59f8b610a62e436b6a5a695588c1da24e906c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 73/89] fix: allow unavailable links at unreachable sites

Unavailable links stay so when their sites become unreachable, but such a
plan could not be loaded back from its file.
---
 terragraph_planner/common/topology_models/link.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index 4e7d7a5..1471c3f 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -379,9 +379,12 @@ class Link:
         if (
             self._tx_site.status_type == StatusType.UNREACHABLE
             or self._rx_site.status_type == StatusType.UNREACHABLE
-        ) and status_type != StatusType.UNREACHABLE:
+        ) and status_type not in {
+            StatusType.UNREACHABLE,
+            StatusType.UNAVAILABLE,
+        }:
             raise TopologyException(
-                "The status of the link with an unreachable tx or rx site must be unreachable."
+                "The status of the link with an unreachable tx or rx site must be unreachable or unavailable."
             )
         if (
             self._tx_site.status_type == StatusType.CANDIDATE
-- 
2.43.0


From 9fd05395a27a8a390badd8c8208bcb57939b7bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 74/89] fix: plan networks with unavailable sites

The sectors created for an unavailable site were candidates, which the status
rules refuse, so planning failed.
---
 terragraph_planner/optimization/topology_preparation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index a2a7d49..1a9a6e2 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -196,7 +196,9 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -247,7 +249,9 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=site.status_type
+                    if site.status_type in StatusType.inactive_status()
+                    else StatusType.CANDIDATE,
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
-- 
2.43.0


From 9b6a11f4c2e65ce5fc3826a27369a3f228dde8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 75/89] fix: sort the topology after extra POPs are added

The order of their links depended on the order of the input, and so did the
plan among equally good ones.
---
 terragraph_planner/optimization/topology_optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index be29094..180096b 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -159,6 +159,8 @@ def optimize_topology(topology: Topology, params: OptimizerParams) -> None:
 
     # Propose some extra POPs if necessary
     _run_propose_extra_pops_step(topology, params)
+    # Sort again because of the added POPs
+    topology.sort()
 
     # Mark disconnected components and those that exceed max hops from POPs
     # as unreachable
-- 
2.43.0


From c07a51fb7f6b41fe7dda58a67f41e1ce01a24310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 76/89] fix: create missing parents of the output directory

A configured output directory that does not exist yet raised
FileNotFoundError after the plan had been computed.
---
 terragraph_planner/common/data_io/topology_serializer.py      | 2 +-
 .../optimization/ilp_models/network_optimization.py           | 2 +-
 terragraph_planner/optimization/topology_report.py            | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index ebfaeaa..41fe4d0 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -126,7 +126,7 @@ def dump_topology_to_kml(
             file_name = f"{file_type.name.lower()}_{time_suffix}.kml"
 
         if not os.path.exists(dump_dir):
-            os.mkdir(dump_dir)
+            os.makedirs(dump_dir)
         full_file_path = os.path.join(dump_dir, file_name)
         write_to_kml_file(topology, os.path.join(dump_dir, file_name))
         logger.info(
diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 2834c5d..31a495f 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -1221,7 +1221,7 @@ class NetworkOptimization(OptimizationSetup):
             return
         dump_dir = os.path.join(current_system_params.output_dir, "debug")
         if not os.path.exists(dump_dir):
-            os.mkdir(dump_dir)
+            os.makedirs(dump_dir)
         time_suffix = "".join(str(time()).split("."))
         full_file_path = os.path.join(
             dump_dir, f"{file_type.name.lower()}_{time_suffix}"
diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index d69eff0..0e8b7ed 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -847,7 +847,7 @@ def build_sites_df(
 def dump_df_to_csv(df: pd.DataFrame, file_type: OutputFile) -> None:
     dump_dir = os.path.join(current_system_params.output_dir, "output")
     if not os.path.exists(dump_dir):
-        os.mkdir(dump_dir)
+        os.makedirs(dump_dir)
     full_file_path = os.path.join(dump_dir, f"{file_type.name.lower()}.csv")
     df.to_csv(full_file_path)
     logger.info(
@@ -880,7 +880,7 @@ def dump_metrics_to_yaml(metrics: TopologyMetrics) -> None:
 
     dump_dir = os.path.join(current_system_params.output_dir, "output")
     if not os.path.exists(dump_dir):
-        os.mkdir(dump_dir)
+        os.makedirs(dump_dir)
     full_file_path = os.path.join(
         dump_dir, f"{OutputFile.METRICS.name.lower()}.yaml"
     )
-- 
2.43.0


From becb6c9dfa37f45d09ff3e38f4b59dfca372e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 77/89] fix: accept vertical CRSs whose axis direction is
 written in upper case

---
 terragraph_planner/common/data_io/shared_rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/shared_rules.py b/terragraph_planner/common/data_io/shared_rules.py
index fedac0d..59c2d27 100644
--- a/terragraph_planner/common/data_io/shared_rules.py
+++ b/terragraph_planner/common/data_io/shared_rules.py
@@ -51,8 +51,9 @@ def vertical_crs_is_valid_if_present_rule(
                     f"vertical unit must be one of {valid_unit_names}"
                 )
             )
-        if (vert_axis0 is None or vert_axis0 != "up") and (
-            vert_axis1 is None or vert_axis1 != "up"
+        # The direction is written in upper case by most libraries
+        if (vert_axis0 is None or vert_axis0.casefold() != "up") and (
+            vert_axis1 is None or vert_axis1.casefold() != "up"
         ):
             errors.append(
                 DataException(
-- 
2.43.0


From 759a25159d4a7fa5808fd4ebc6c7acf4cf78dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 78/89] fix: read GeoTIFF files of different collection times

---
 .../common/data_io/elevation_loader.py               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 3dd224f..071e765 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -101,8 +101,13 @@ class ElevationLoader(DataValidator[Elevation]):
         """
         try:
             ds_list = []
+            collection_times = []
             for source in sources:
-                ds_list.append(gdal.Open(source))
+                source_ds = gdal.Open(source)
+                ds_list.append(source_ds)
+                collection_time = source_ds.GetMetadataItem("TIFFTAG_DATETIME")
+                if collection_time is not None:
+                    collection_times.append(collection_time)
 
             ds = gdal.Warp(
                 "",
@@ -149,9 +154,8 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict()["TIFFTAG_DATETIME"]
-            if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
-            else None,
+            # The merged data is as old as the oldest file
+            min(collection_times) if len(collection_times) > 0 else None,
         )
 
         logger.info(f"The geotiff file(s) {sources} has been loaded.")
-- 
2.43.0


From 09ad1b9f7501cf095d45202ec49786bf340e9799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 79/89] fix: keep grids without data of unsigned GeoTIFF files

---
 terragraph_planner/common/data_io/elevation_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 071e765..6a134f2 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -116,6 +116,8 @@ class ElevationLoader(DataValidator[Elevation]):
                 dstSRS=f"EPSG:{utm_epsg_code}",
                 dstNodata=NO_DATA_VALUE,
                 srcNodata=None,
+                # Unsigned integers cannot hold NO_DATA_VALUE
+                outputType=gdal.GDT_Float32,
             )
 
             # Crop the geotiff into boundary bounding box
-- 
2.43.0


From 3f15a0fd984dffc5e9934863fcfd656614cd6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 80/89] fix: reject GeoTIFF files without CRS or of several
 bands

---
 .../common/data_io/elevation_loader.py             | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 6a134f2..870ae07 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -13,7 +13,7 @@ from osgeo import gdal
 from terragraph_planner.common.data_io.constants import NO_DATA_VALUE
 from terragraph_planner.common.data_io.elevation_rules import ElevationRules
 from terragraph_planner.common.data_io.patterns import DataValidator
-from terragraph_planner.common.exceptions import DataException
+from terragraph_planner.common.exceptions import DataException, planner_assert
 from terragraph_planner.common.structs import UTMBoundingBox
 from terragraph_planner.los.elevation import Elevation
 
@@ -148,6 +148,18 @@ class ElevationLoader(DataValidator[Elevation]):
         except Exception:
             raise DataException("Error encountered when loading GeoTIFF")
 
+        for source, source_ds in zip(sources, ds_list):
+            planner_assert(
+                source_ds.RasterCount == 1,
+                f"GeoTIFF: {source} must have exactly one raster band.",
+                DataException,
+            )
+            planner_assert(
+                source_ds.GetSpatialRef() is not None,
+                f"GeoTIFF: {source} has no projection information.",
+                DataException,
+            )
+
         elevation = Elevation(
             ds.ReadAsArray(),
             utm_bounding_box,
-- 
2.43.0


From 0c0e9fcdb8618a38462e6bb7e14e7de96d2db906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 81/89] fix: read the holes of KML polygons as holes

---
 .../common/data_io/kml_library.py             | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 84eb418..6ba0a02 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -269,29 +269,35 @@ def extract_polygons(
         for layer in kml_ds:
             for feature in layer:
                 geo = feature.GetGeometryRef()
-                for i in range(geo.GetGeometryCount()):
-                    coords = json.loads(geo.GetGeometryRef(i).ExportToJson())[
-                        "coordinates"
+                geometries = (
+                    [geo]
+                    if ogr.GT_Flatten(geo.GetGeometryType()) == ogr.wkbPolygon
+                    else [
+                        geo.GetGeometryRef(i)
+                        for i in range(geo.GetGeometryCount())
                     ]
-                    # The coords of a multipolygon is like [[[0, 0], [0, 1], [1, 1], [1, 0], [0, 0]]]
+                )
+                for geometry in geometries:
+                    coords = json.loads(geometry.ExportToJson())["coordinates"]
+                    holes = []
+                    # The coords of a polygon is like [[[0, 0], [0, 1], [1, 1], [1, 0], [0, 0]]]
                     # which is in the format of List[List[List[float]]]
-                    # We only use the first polygon in the multipolygon
+                    # The first ring is the outline, and the others are the holes
                     if (
                         len(coords) > 0
                         and len(coords[0]) > 0
                         and type(coords[0][0]) is list
                     ):
-                        coords = coords[0]
-                        logger.warning(
-                            "A MultiPolygon is found is the KML. "
-                            "Only the first polygon in the MultiPolygon is used."
-                        )
+                        coords, *holes = coords
                     # A Polygon should contain 3 or more points.
                     # coords have an extra coord to close the loop
                     # e.g. [(0, 0), (0, 1), (1, 1), (1, 0), (0, 0)]
                     if len(coords) > 3:
                         polygon_list.append(
-                            Polygon([coord[:2] for coord in coords])
+                            Polygon(
+                                [coord[:2] for coord in coords],
+                                [[coord[:2] for coord in hole] for hole in holes],
+                            )
                         )
         return polygon_list
     except Exception:
-- 
2.43.0


From 7d0c2416a8251976140904779e427235af7780ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 82/89] fix: keep the holes of 3D building outlines

---
 terragraph_planner/common/data_io/building_group_loader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 37eb4e8..c16708a 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -11,7 +11,7 @@ from itertools import chain
 from typing import List
 
 from osgeo import ogr, osr
-from shapely import geometry, wkt
+from shapely import ops, wkt
 
 from terragraph_planner.common.constants import LAT_LON_EPSG
 from terragraph_planner.common.data_io.building_group_rules import (
@@ -88,9 +88,7 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
         while feature:
             polygon = wkt.loads(feature.GetGeometryRef().ExportToWkt())
             if polygon.has_z:
-                polygon = geometry.Polygon(
-                    [coord[:2] for coord in polygon.exterior.coords]
-                )
+                polygon = ops.transform(lambda x, y, z: (x, y), polygon)
             building_list.append(Building(polygon))
             feature = layer.GetNextFeature()
 
-- 
2.43.0


From 393c57e8b758cbc95bed6920273f3f514be0ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 83/89] fix: keep buildings which are cut by the boundary and
 also touch it

---
 terragraph_planner/los/building_group.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index cd2ce50..11ec32a 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -11,7 +11,7 @@ from osgeo import osr
 from PIL import Image, ImageDraw
 from pyre_extensions import none_throws
 from shapely import ops, prepared
-from shapely.geometry import MultiPolygon, Polygon
+from shapely.geometry import GeometryCollection, MultiPolygon, Polygon
 
 from terragraph_planner.common.configuration.enums import SiteType
 from terragraph_planner.common.constants import LAT_LON_EPSG
@@ -98,9 +98,14 @@ class BuildingGroup(GISData):
                     cut_geom = geom.intersection(ll_boundary_polygon)
                     if isinstance(cut_geom, Polygon):
                         self.add_building(polygon=cut_geom)
-                    elif isinstance(cut_geom, MultiPolygon):
-                        for subgeom in cut_geom:
-                            self.add_building(polygon=subgeom)
+                    elif isinstance(
+                        cut_geom, (MultiPolygon, GeometryCollection)
+                    ):
+                        # A collection also has the points and lines where the
+                        # building only touches the boundary
+                        for subgeom in cut_geom.geoms:
+                            if isinstance(subgeom, Polygon):
+                                self.add_building(polygon=subgeom)
         # Use selection polygons to filter out building polygons
         if selection_polygons is not None and len(selection_polygons) > 0:
             building_list = self.building_list
-- 
2.43.0


From 22201c327625e508aae2966fc049d249ea3c418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 84/89] fix: use the horizontal EPSG code of compound CRSs

---
 terragraph_planner/common/data_io/patterns.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/patterns.py b/terragraph_planner/common/data_io/patterns.py
index d2e4e09..219278d 100644
--- a/terragraph_planner/common/data_io/patterns.py
+++ b/terragraph_planner/common/data_io/patterns.py
@@ -11,7 +11,7 @@ from typing import Generic, List, TypeVar
 
 from osgeo.osr import SpatialReference
 
-from terragraph_planner.common.exceptions import DataException
+from terragraph_planner.common.exceptions import DataException, planner_assert
 
 
 class GISData:
@@ -25,7 +25,16 @@ class GISData:
     @property
     def crs_epsg_code(self) -> int:
         self.spatial_reference.AutoIdentifyEPSG()
-        return int(self.spatial_reference.GetAuthorityCode(None))
+        code = self.spatial_reference.GetAuthorityCode(None)
+        if code is None and self.spatial_reference.IsCompound():
+            # Only the horizontal part has a code
+            code = self.spatial_reference.GetAuthorityCode(
+                "PROJCS" if self.spatial_reference.IsProjected() else "GEOGCS"
+            )
+        planner_assert(
+            code is not None, "The CRS has no EPSG code.", DataException
+        )
+        return int(code)
 
 
 DataType = TypeVar("DataType", bound=GISData)
-- 
2.43.0


From 9aa59c7fef8dba7863945f8fcd7f9a574f560766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 85/89] fix: report malformed numbers of subscribers and
 heights in CSV files as data errors

---
 .../common/data_io/csv_library.py             | 57 ++++++++++++-------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 888f93f..ce64b63 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -4,9 +4,10 @@
 # LICENSE file in the root directory of this source tree.
 
 import csv
+import math
 import re
 from itertools import combinations
-from typing import TYPE_CHECKING, List, Optional, Tuple
+from typing import TYPE_CHECKING, List, Optional, Tuple, Union
 
 import pandas as pd
 from pyre_extensions import none_throws
@@ -62,6 +63,26 @@ def dms_to_decimal(dms: str) -> float:
         return 0
 
 
+def _to_number(
+    value: Union[str, float, int], description: str
+) -> Optional[float]:
+    """
+    Convert the value of a cell to a finite number, or None if it's blank.
+    """
+    if isinstance(value, str) and len(value.strip()) == 0:
+        return None
+    try:
+        number = float(value)
+    except ValueError:
+        number = math.nan
+    planner_assert(
+        math.isfinite(number),
+        f"Provided input contains a malformed {description} value: {value}.",
+        DataException,
+    )
+    return number
+
+
 def load_csv_and_validate(
     csv_file_path: str,
     input_key_list: List[DataKey],
@@ -145,26 +166,22 @@ def load_csv_and_validate(
                 row[SiteKey.LONGITUDE]
             )
         if SiteKey.NUMBER_OF_SUBSCRIBERS in row:
-            if df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] == "":
-                df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = None
-            elif isinstance(row[SiteKey.NUMBER_OF_SUBSCRIBERS], str):
-                df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
-                    row[SiteKey.NUMBER_OF_SUBSCRIBERS]
-                )
+            number = _to_number(
+                row[SiteKey.NUMBER_OF_SUBSCRIBERS], "number of subscribers"
+            )
+            planner_assert(
+                number is None or (number >= 0 and number == int(number)),
+                f"Provided input contains a malformed number of subscribers value: {number}.",
+                DataException,
+            )
+            df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = (
+                int(number) if number is not None else None
+            )
         for input_key in (SiteKey.ALTITUDE, SiteKey.HEIGHT):
-            if input_key in row and isinstance(row[input_key], str):
-                try:
-                    df.loc[idx, input_key] = (
-                        float(row[input_key])
-                        if len(row[input_key].strip()) > 0
-                        else None
-                    )
-                except ValueError:
-                    planner_assert(
-                        False,
-                        f"Provided input contains a malformed altitude/height value: {row[input_key]}.",
-                        DataException,
-                    )
+            if input_key in row:
+                df.loc[idx, input_key] = _to_number(
+                    row[input_key], "altitude/height"
+                )
         for input_key in input_key_list:
             if input_key in row and input_key not in NUMERIC_KEYS:
                 df.loc[idx, input_key] = row[input_key].strip()
-- 
2.43.0


From 1e2886a28d25115b2e7da0dcdd74a14844fdbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 86/89] fix: reject links from a site to itself

---
 terragraph_planner/common/data_io/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/data_io/utils.py b/terragraph_planner/common/data_io/utils.py
index 2f9e40b..650608e 100644
--- a/terragraph_planner/common/data_io/utils.py
+++ b/terragraph_planner/common/data_io/utils.py
@@ -105,6 +105,11 @@ def _add_link_between_sites(
     Helper to add a Link between two Sites. If the inputs are csv files,
     raw_link would be None since corresponding data are not available.
     """
+    planner_assert(
+        tx_site.site_id != rx_site.site_id,
+        f"A link connects the site {tx_site.name} to itself.",
+        DataException,
+    )
     existing_link = topology.get_link_by_site_ids(
         tx_site.site_id, rx_site.site_id
     )
-- 
2.43.0


From 728425f770c5e45984226a1c01787fa0c5022088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 87/89] fix: keep user input and base sites that are on a
 building

---
 terragraph_planner/los/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 00f8906..7da30bf 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -627,8 +627,8 @@ def pick_best_sites_per_building(
     # Build a dict which map building to the sites on that building
     building_to_sites = defaultdict(list)
     for site_idx, site in enumerate(sites):
-        if site.building_id is not None and site.building_id > -1:
-            building_to_sites[site.building_id].append(site_idx)
+        if isinstance(site, DetectedSite):
+            building_to_sites[none_throws(site.building_id)].append(site_idx)
         else:
             # User input sites must be picked
             picked_sites.append(site_idx)
-- 
2.43.0


From fc0dee79b1fa3201b6a6dd4a058f756962579a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 88/89] fix: reject radio table files with missing or malformed
 entries

---
 .../common/data_io/csv_library.py             | 54 +++++++++++++++++--
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index ce64b63..2a4d0e9 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -9,6 +9,7 @@ import re
 from itertools import combinations
 from typing import TYPE_CHECKING, List, Optional, Tuple, Union
 
+import numpy as np
 import pandas as pd
 from pyre_extensions import none_throws
 
@@ -17,6 +18,7 @@ from terragraph_planner.common.configuration.enums import (
     SiteType,
     StatusType,
 )
+from terragraph_planner.common.constants import FULL_ROTATION_ANGLE
 from terragraph_planner.common.data_io.data_key import (
     NUMERIC_KEYS,
     DataKey,
@@ -336,6 +338,8 @@ def read_antenna_pattern_data(
         data = data.replace("", pd.NA)
         # drop columns and rows filled with NA values
         data = data.dropna(axis=1, how="all").dropna(axis=0, how="all")
+        # the rows are located by their position
+        data = data.reset_index(drop=True)
     except Exception:
         planner_assert(
             False,
@@ -352,6 +356,11 @@ def read_antenna_pattern_data(
 
     az_startlist = data[data[0] == "HORIZONTAL"].index
     el_startlist = data[data[0] == "VERTICAL"].index
+    planner_assert(
+        len(az_startlist) == len(idx) and len(el_startlist) == len(idx),
+        "Each antenna in the imported antenna pattern file must have a horizontal and a vertical pattern!",
+        DataException,
+    )
     for i in range(len(idx)):
         az_start = az_startlist[i]
         el_start = el_startlist[i]
@@ -373,6 +382,22 @@ def read_antenna_pattern_data(
             "Imported antenna pattern file has an unexpected number of loss entries!",
             DataException,
         )
+        # The losses are listed by angle, which may be in any order
+        az_pattern, el_pattern = (
+            pattern.assign(
+                angle=pattern[0] % FULL_ROTATION_ANGLE
+            ).sort_values("angle")
+            for pattern in (az_pattern, el_pattern)
+        )
+        planner_assert(
+            all(
+                pattern["angle"].tolist() == list(range(360))
+                and np.isfinite(pattern[1]).all()
+                for pattern in (az_pattern, el_pattern)
+            ),
+            "Imported antenna pattern file must have a loss for each degree!",
+            DataException,
+        )
         antenna_pattern = [
             (-1 * az_pattern[1]).values.tolist(),
             (-1 * el_pattern[1]).values.tolist(),
@@ -391,17 +416,30 @@ def read_scan_pattern_data(
     pattern_data = {}
     try:
         df = pd.read_csv(pattern_file_path, index_col=0)
+        df_dict = df.to_dict("index")
+        pattern_data = {
+            float(hor): {float(ver): float(v) for ver, v in row.items()}
+            for hor, row in df_dict.items()
+        }
     except Exception:
         planner_assert(
             False,
             "Imported scan pattern file is not in the expected .csv format!",
             DataException,
         )
-    df_dict = df.to_dict("index")
-    pattern_data = {
-        float(hor): {float(ver): float(v) for ver, v in row.items()}
-        for hor, row in df_dict.items()
-    }
+    # Each pair of angles must have exactly one gain
+    planner_assert(
+        len(pattern_data) > 0
+        and len(pattern_data) == df.shape[0]
+        and all(
+            len(row) > 0
+            and len(row) == df.shape[1]
+            and np.isfinite([hor, *row, *row.values()]).all()
+            for hor, row in pattern_data.items()
+        ),
+        "Imported scan pattern file must have a gain for each pair of angles!",
+        DataException,
+    )
     return pattern_data
 
 
@@ -493,6 +531,12 @@ def read_mcs_snr_mbps_map_data(
                     "All entries except the column names must be numbers.",
                     DataException,
                 )
+            planner_assert(
+                math.isfinite(value)
+                and (key_name != MCS or value.is_integer()),
+                "All entries except the column names must be finite numbers, and MCS must be integers.",
+                DataException,
+            )
 
     # The ordering of MCS, SNR, MBPS and TX_BACKOFF must match. For increasing MCS, SNR
     # threshold, Mbps and Tx power backoff must not decrease.
-- 
2.43.0


From c6774744fe493a3042d7d894672a975d20977021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 89/89] fix: Courtyards of buildings keep the terrain height

---
 terragraph_planner/los/building_group.py | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index 11ec32a..fbfaf5f 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -4,7 +4,7 @@
 # LICENSE file in the root directory of this source tree.
 
 import logging
-from typing import List, Optional
+from typing import Iterable, List, Optional, Tuple
 
 import numpy as np
 from osgeo import osr
@@ -238,8 +238,11 @@ class BuildingGroup(GISData):
         """
         dhm_image = Image.new("F", (dtm.x_size, dtm.y_size), 0)
         imgd = ImageDraw.Draw(dhm_image)
-        for building in self.building_list:
-            coords_utm = building.polygon.exterior.coords
+        height = int(default_building_height * 1000)
+
+        def _draw_ring(
+            coords_utm: Iterable[Tuple[float, float]], fill: int
+        ) -> None:
             coords_pixel = [
                 (
                     (utm_x - dtm.left_top_x) / dtm.x_resolution,
@@ -247,11 +250,20 @@ class BuildingGroup(GISData):
                 )
                 for utm_x, utm_y in coords_utm
             ]
-            imgd.polygon(
-                xy=coords_pixel,
-                fill=int(default_building_height * 1000),
-                outline=int(default_building_height * 1000),
-            )
+            imgd.polygon(xy=coords_pixel, fill=fill, outline=height)
+
+        # Draw the buildings with courtyards first because another building
+        # can be in the courtyard
+        for building in sorted(
+            self.building_list,
+            key=lambda building: (
+                len(building.polygon.interiors) == 0,
+                -building.polygon.area,
+            ),
+        ):
+            _draw_ring(building.polygon.exterior.coords, height)
+            for courtyard in building.polygon.interiors:
+                _draw_ring(courtyard.coords, 0)
 
         dhm_matrix = np.asarray(dhm_image) / 1000
         return Elevation(
-- 
2.43.0

