From c5e038c42b5c29e541b6179a2d6d317a9d9b234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:46 +0000
Subject: [PATCH 01/26] fix: constraint keys of rows with '#' in a name collide

---
 src/ese.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..180e543 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -339,8 +339,12 @@ impl Constraint {
     /// This allows indexing in `HashMap`, to be able to override easily.
     #[must_use]
     pub fn key(&self) -> String {
-        fn opt(f: Option<&str>) -> &str {
-            f.unwrap_or("*")
+        // names may contain the separator
+        fn escape(f: &str) -> String {
+            f.replace('\\', "\\\\").replace('#', "\\#")
+        }
+        fn opt(f: Option<&str>) -> String {
+            escape(f.unwrap_or("*"))
         }
         format!(
             "{}#{}#{}#{}#{}#{}#{}",
@@ -349,8 +353,8 @@ impl Constraint {
             opt(self.subsequent_fix.as_deref()),
             opt(self.arrival_runway.as_deref()),
             opt(self.fix.as_deref()),
-            self.exit_sector,
-            self.entry_sector,
+            escape(&self.exit_sector),
+            escape(&self.entry_sector),
         )
     }
 }
-- 
2.43.0


From b5875b81ab2dd0aaa91b00567178538548757789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 02/26] fix: coordinate waypoints with non-ASCII digits panic

---
 src/adaptation/locations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index 4cda431..fd5f74d 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -166,12 +166,12 @@ pub struct Locations {
 
 fn coord_regex() -> &'static Regex {
     static COORD_RE: OnceLock<Regex> = OnceLock::new();
-    COORD_RE.get_or_init(|| Regex::new(r"^(\d{1,6})(N|S)(\d{2,7})(E|W)$").unwrap())
+    COORD_RE.get_or_init(|| Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$").unwrap())
 }
 
 fn range_bearing_regex() -> &'static Regex {
     static RANGE_BEARING_RE: OnceLock<Regex> = OnceLock::new();
-    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})(\d{3})(\d{3})$").unwrap())
+    RANGE_BEARING_RE.get_or_init(|| Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$").unwrap())
 }
 
 impl Locations {
-- 
2.43.0


From 9741da309a4a949829923c994888b40d369549e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 03/26] fix: a name-at-position query sees only the first entry
 of a name

---
 src/adaptation/locations/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/adaptation/locations/mod.rs b/src/adaptation/locations/mod.rs
index fd5f74d..6dfc1de 100644
--- a/src/adaptation/locations/mod.rs
+++ b/src/adaptation/locations/mod.rs
@@ -439,18 +439,21 @@ impl Locations {
     pub fn contains_nav_element(&self, designator: &str, position: GraphPosition) -> bool {
         let other = position.0.quantize();
         self.vors
-            .get(designator)
-            .iter()
+            .get_vec(designator)
+            .into_iter()
+            .flatten()
             .any(|vor| vor.coordinate.quantize() == other)
             || self
                 .ndbs
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|ndb| ndb.coordinate.quantize() == other)
             || self
                 .fixes
-                .get(designator)
-                .iter()
+                .get_vec(designator)
+                .into_iter()
+                .flatten()
                 .any(|fix| fix.coordinate.quantize() == other)
     }
 }
-- 
2.43.0


From 5090f75a2cb351192474c2d34d62aa458c5a1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 04/26] fix: printed coordinates show 60 seconds or minutes
 just below a full minute

---
 src/lib.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..be63ed5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,14 +61,14 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
+// seconds are in thousandths: rounding comes first, so that it carries into minutes and degrees
+fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u64, u64, u64, char) {
     let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
+    let thousandths = (decimal.abs() * 3_600_000.0).round() as u64;
 
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
+    let degrees = thousandths / 3_600_000;
+    let minutes = thousandths / 60_000 % 60;
+    let seconds = thousandths % 60_000;
 
     let direction = match (is_latitude, is_negative) {
         (true, false) => 'N',
@@ -106,21 +106,13 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.y, true);
+        format!("{hemi}{deg:03}.{min:02}.{:02}.{:03}", sec / 1000, sec % 1000)
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        let (deg, min, sec, hemi) = decimal_to_dms(self.x, false);
+        format!("{hemi}{deg:03}.{min:02}.{:02}.{:03}", sec / 1000, sec % 1000)
     }
 }
 impl DegMinSecExt for Point {
-- 
2.43.0


From 27f69776e3debca18a85601f4c1b8038ce1a13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 05/26] fix: the identifier of a sector with several volumes
 depends on hash order

---
 src/adaptation/sectors.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index d21f579..61a1d9c 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -163,11 +163,14 @@ impl Sectors {
             |mut acc, ((position_priority, runway_filter), volumes_and_sector)| {
                 let (volumes, sectors): (Vec<String>, Vec<ese::Sector>) =
                     volumes_and_sector.into_iter().unzip();
+                // FIXME better sector name than that of the first volume
+                let Some(id) = volumes.iter().min().cloned() else {
+                    return acc;
+                };
                 acc.insert(
-                    // FIXME better sector name than that of the first volume
-                    volumes[0].clone(),
+                    id.clone(),
                     Sector {
-                        id: volumes[0].clone(),
+                        id,
                         position_priority,
                         runway_filter: vec![runway_filter],
                         volumes: volumes.into_iter().collect(),
-- 
2.43.0


From ae462e5381b4b2aa0d42fa9fdd3c7ea9a2cc163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 06/26] fix: the start of a sector's border ring depends on
 hash order

---
 src/adaptation/sectors.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/adaptation/sectors.rs b/src/adaptation/sectors.rs
index 61a1d9c..4cf9625 100644
--- a/src/adaptation/sectors.rs
+++ b/src/adaptation/sectors.rs
@@ -77,20 +77,17 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
             })
         })
         .collect();
-    let (mut adj_list, edge_count, points) = lines.iter().fold(
+    let (mut adj_list, edge_count) = lines.iter().fold(
         (
             HashMap::<Coord<i64>, Vec<Coord<i64>>>::new(),
             HashMap::<Coord<i64>, usize>::new(),
-            HashSet::<Coord<i64>>::new(),
         ),
-        |(mut adj_list, mut edge_count, mut points), line| {
+        |(mut adj_list, mut edge_count), line| {
             adj_list.entry(line.start).or_default().push(line.end);
             adj_list.entry(line.end).or_default().push(line.start);
             *edge_count.entry(line.start).or_insert(0) += 1;
             *edge_count.entry(line.end).or_insert(0) += 1;
-            points.insert(line.start);
-            points.insert(line.end);
-            (adj_list, edge_count, points)
+            (adj_list, edge_count)
         },
     );
 
@@ -99,10 +96,10 @@ fn polygon_from_ese(sector: &ese::Sector) -> Option<LineString> {
         return None;
     }
 
-    let line_ring = if let Some(start_point) = points.iter().next() {
-        let mut stack = vec![*start_point];
+    let line_ring = if let Some(first_line) = lines.first() {
+        let mut stack = vec![first_line.start];
         let mut line_ring = vec![];
-        let mut current = *start_point;
+        let mut current = first_line.start;
 
         while !stack.is_empty() {
             if let Some(neighbours) = adj_list.get_mut(&current) {
-- 
2.43.0


From f2c8e4241a53be43e95e54b266941a89fdd7bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:09 +0000
Subject: [PATCH 07/26] fix: high airway names take the colour of the airway
 lines

---
 src/adaptation/colours.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/colours.rs b/src/adaptation/colours.rs
index a5dc074..12cf3b1 100644
--- a/src/adaptation/colours.rs
+++ b/src/adaptation/colours.rs
@@ -232,7 +232,7 @@ impl MapColours {
             ),
             high_airway_name: Colour::from_symbology(
                 symbology,
-                &("High airways".to_string(), "line".to_string()),
+                &("High airways".to_string(), "name".to_string()),
                 Self::DEFAULT_HIGH_AIRWAY_NAME,
             ),
             sid: Colour::from_symbology(
-- 
2.43.0


From 96bf6511709e176d9662f94878ed006f5149e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:09 +0000
Subject: [PATCH 08/26] fix: a VOR without a configured symbol is drawn as an
 NDB

---
 src/adaptation/symbols.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..df1a99a 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -190,7 +190,7 @@ impl Symbols {
                 .and_then(|t| t.symbols.get("VOR"))
                 .map(|s| s.rules.clone())
                 .or_else(|| symbology.symbols.get(&SymbolType::VOR).cloned())
-                .unwrap_or(default_ndb().clone()),
+                .unwrap_or(default_vor().clone()),
             airport: topsky
                 .as_ref()
                 .and_then(|t| t.symbols.get("AIRPORT"))
-- 
2.43.0


From b4f98542bbfa54b0bc15681f153f1aa8aea9d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:51 +0000
Subject: [PATCH 09/26] fix: a map setting after a polygon applies to what
 follows, not to the polygon

---
 src/adaptation/maps/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adaptation/maps/mod.rs b/src/adaptation/maps/mod.rs
index 054ec2a..c934a21 100644
--- a/src/adaptation/maps/mod.rs
+++ b/src/adaptation/maps/mod.rs
@@ -47,7 +47,11 @@ impl Map {
         F: FnMut(&mut MapGroup),
     {
         if let Some(last) = self.map_groups.last() {
-            if last.lines.0.is_empty() && last.symbols.is_empty() && last.labels.is_empty() {
+            if last.lines.0.is_empty()
+                && last.symbols.is_empty()
+                && last.labels.is_empty()
+                && last.polygons.is_empty()
+            {
                 change_fn(self.map_groups.last_mut().unwrap());
             } else {
                 let mut map_group = MapGroup {
-- 
2.43.0


From cd8f7dc642440cd59522e31f5b55e97017940d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:51 +0000
Subject: [PATCH 10/26] fix: AUP and NOTAM activity lists name each of their
 entries

---
 src/topsky/map/active.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..665aab2 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -125,6 +125,9 @@ impl Active {
             Rule::active_callsign => Self::Callsign(ActiveIds::parse(active)),
             Rule::active_aup => Self::Aup(
                 active
+                    .into_inner()
+                    .next()
+                    .unwrap()
                     .into_inner()
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
@@ -133,7 +136,12 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .next()
+                        .unwrap()
+                        .into_inner()
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From 1178b955ed545616f1253bf1e8266b81dad52acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 11/26] fix: airways are drawn without their ends and segments

---
 src/adaptation/sct_items.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/adaptation/sct_items.rs b/src/adaptation/sct_items.rs
index a15fbbc..b9fda87 100644
--- a/src/adaptation/sct_items.rs
+++ b/src/adaptation/sct_items.rs
@@ -84,7 +84,7 @@ fn build_linestring(
                 .find(|line| !visited.contains(&line_hash(**line)))
         })
         .map(|next_line| {
-            let next_point = if next_line.start == point {
+            let next_point = if coord_hash(next_line.start) == coord_hash(point) {
                 next_line.end
             } else {
                 next_line.start
@@ -109,7 +109,7 @@ fn airway_to_multi_line_string(
         .filter_map(|airway| {
             let line = locations
                 .convert_location(&airway.start)
-                .zip(locations.convert_location(&airway.start))
+                .zip(locations.convert_location(&airway.end))
                 .map(|(start, end)| Line::new(start, end));
             if line.is_none() {
                 warn!("Could not convert {airway:?} in .sct {typ} {name}");
@@ -140,8 +140,9 @@ fn airway_to_multi_line_string(
                     (acc, visited)
                 } else {
                     visited.insert(line_hash(*line));
-                    let (linestring, new_visited) =
-                        build_linestring(line.start, visited, &adjacency);
+                    let (mut linestring, new_visited) =
+                        build_linestring(line.end, visited, &adjacency);
+                    linestring.0.insert(0, line.start);
                     acc.0.push(linestring);
 
                     (acc, new_visited)
-- 
2.43.0


From 09b6068a41e22de0692fc39fe3cd9b497e8c2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 12/26] fix: a position without squawk range keeps its first
 visibility point

---
 src/ese.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 180e543..270ff1e 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -471,8 +471,9 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    let squawk_range =
+        parse_squawk_range(position.next_if(|pair| pair.as_rule() == Rule::squawk_range));
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
-- 
2.43.0


From 82e647362c6244528b97d36c14a8e2f04d6dba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 13/26] fix: of several plugin entries of a name the same one
 counts on every run

---
 src/prf.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/prf.rs b/src/prf.rs
index 4883cfa..0059f44 100644
--- a/src/prf.rs
+++ b/src/prf.rs
@@ -89,32 +89,34 @@ impl Prf {
         self.settings
             .0
             .iter()
-            .find_map(|(_, v)| {
+            .filter_map(|(key, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("Squawks.dll")) {
                     path.parent()
                         .map(Path::to_path_buf)
-                        .map(|path| path.join("squawks.json"))
+                        .map(|path| (key, path.join("squawks.json")))
                 } else {
                     None
                 }
             })
-            .map(|path| self.path.parent().unwrap().join(path))
+            .min_by_key(|(key, _)| *key)
+            .map(|(_, path)| self.path.parent().unwrap().join(path))
     }
 
     pub fn topsky_path(&self) -> Option<PathBuf> {
         self.settings
             .0
             .iter()
-            .find_map(|(_, v)| {
+            .filter_map(|(key, v)| {
                 let path = self.join_settings_path(v);
                 if path.file_name() == Some(OsStr::new("TopSky.dll")) {
-                    path.parent().map(Path::to_path_buf)
+                    path.parent().map(|path| (key, path.to_path_buf()))
                 } else {
                     None
                 }
             })
-            .map(|path| self.path.parent().unwrap().join(path))
+            .min_by_key(|(key, _)| *key)
+            .map(|(_, path)| self.path.parent().unwrap().join(path))
     }
 
     pub fn recent_path(&self, num: u8) -> Option<PathBuf> {
-- 
2.43.0


From 7331b1628e7c484dbd2ef6225d2ef064ac9ddbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 14/26] fix: coordinates with degrees or minutes of too many
 digits do not crash the parsers

---
 src/pest/base.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pest/base.pest b/src/pest/base.pest
index b4cd78e..5fe3252 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -7,8 +7,8 @@ pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
 coordinate     =  { coord_part ~ ":" ~ coord_part }
 coord_part     =  { sct_coord_part | decimal }
 sct_coord_part = ${ hemi ~ deg ~ "." ~ min ~ "." ~ sec }
-deg            = @{ ASCII_DIGIT+ }
-min            = @{ ASCII_DIGIT+ }
+deg            = @{ ASCII_DIGIT{1, 3} }
+min            = @{ ASCII_DIGIT{1, 2} }
 sec            = @{ decimal }
 hemi           = @{ "N" | "S" | "W" | "E" | "n" | "s" | "w" | "e" }
 direction      = @{ "<" | ">" }
-- 
2.43.0


From 1ea25d3ed20bfb4d52993f8a95434dd6e70ed673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 15/26] fix: angles of too many digits do not crash the symbol
 parsers

---
 src/pest/base.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/base.pest b/src/pest/base.pest
index 5fe3252..150adc1 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -1,7 +1,7 @@
 point       =  { decimal ~ ":" ~ decimal }
 NL          = _{ ((" " | "\t")* ~ NEWLINE)+ }
 decimal     = @{ ("-" | "+")? ~ ((ASCII_DIGIT* ~ "." ~ ASCII_DIGIT+) | ASCII_DIGIT+) }
-integer     = @{ ("-" | "+")? ~ ASCII_DIGIT+ }
+integer     = @{ ("-" | "+")? ~ ASCII_DIGIT{1, 18} }
 pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
 
 coordinate     =  { coord_part ~ ":" ~ coord_part }
-- 
2.43.0


From cc962a36f39d107aeca8ff1ef18d1af8a89eb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 16/26] fix: decimal coordinates in ESE files do not crash the
 parser

---
 src/ese.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 270ff1e..2d85014 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -401,29 +401,35 @@ enum SectionName {
     Unsupported,
 }
 
-fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
-    let hemi = coordinate_part.next().unwrap().as_str();
-    let sign = Sign::from(hemi);
-    let degrees = coordinate_part
-        .next()
-        .unwrap()
-        .as_str()
-        .parse::<u16>()
-        .unwrap();
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let pair = pair.into_inner().next().unwrap();
+    match pair.as_rule() {
+        Rule::decimal => pair.as_str().parse().unwrap(),
+        _ => {
+            let mut coordinate_part = pair.into_inner();
+            let hemi = coordinate_part.next().unwrap().as_str();
+            let sign = Sign::from(hemi);
+            let degrees = coordinate_part
+                .next()
+                .unwrap()
+                .as_str()
+                .parse::<u16>()
+                .unwrap();
 
-    let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
-    let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
+            let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
+            let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
-    (sign, degrees, min, sec)
+            Coord::from_deg_min_sec((sign, degrees, min, sec), DegMinSec::default()).y
+        }
+    }
 }
 
 // TODO generalise this and other similar into trait
 fn parse_coordinate(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = parse_coordinate_part(coordinate.next().unwrap());
-    let lng = parse_coordinate_part(coordinate.next().unwrap());
-    Coord::from_deg_min_sec(lat, lng)
+    let y = parse_coordinate_part(coordinate.next().unwrap());
+    let x = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 enum SectorRule {
-- 
2.43.0


From 804f405e25a1e06acca1b3ff58f3fda00bf34af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 17/26] fix: negative or too high levels in ESE files do not
 crash the parser

---
 src/ese.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 2d85014..9a2cce4 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -54,7 +54,7 @@ impl MSAW {
     fn parse(pair: Pair<Rule>) -> (String, Self) {
         let mut msaw = pair.into_inner();
         let id = msaw.next().unwrap().as_str().to_string();
-        let altitude = msaw.next().unwrap().as_str().parse().unwrap();
+        let altitude = parse_level(&msaw.next().unwrap());
         let points = msaw.map(parse_coordinate).collect();
 
         (id, Self { altitude, points })
@@ -132,8 +132,8 @@ impl Sector {
     fn parse(pair: Pair<Rule>) -> (Vec<String>, Self) {
         let mut sector = pair.into_inner();
         let id = sector.next().unwrap().as_str().to_string();
-        let bottom = sector.next().unwrap().as_str().parse().unwrap();
-        let top = sector.next().unwrap().as_str().parse().unwrap();
+        let bottom = parse_level(&sector.next().unwrap());
+        let top = parse_level(&sector.next().unwrap());
         let subsettings = sector.map(Self::parse_subsettings).collect::<Vec<_>>();
         let owner_priority = subsettings
             .iter()
@@ -255,10 +255,18 @@ fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
     }
 }
 
+// levels below zero are on the ground
+fn parse_level(pair: &Pair<Rule>) -> u32 {
+    let level = pair.as_str();
+    level
+        .parse()
+        .unwrap_or(if level.starts_with('-') { 0 } else { u32::MAX })
+}
+
 fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::wildcard => None,
-        Rule::integer => Some(pair.as_str().parse().unwrap()),
+        Rule::integer => Some(parse_level(pair)),
         rule => unreachable!("{rule:?}"),
     }
 }
-- 
2.43.0


From a7cb7a5262bb4d694cd572b9fba6f39af0f39580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 18/26] fix: squawk ranges out of range do not crash the ESE
 parser

---
 src/ese.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 9a2cce4..8e143a7 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -467,9 +467,9 @@ fn parse_squawk_range(maybe_pair: Option<Pair<Rule>>) -> Option<(u16, u16)> {
     maybe_pair.and_then(|pair| match pair.as_rule() {
         Rule::squawk_range => {
             let mut squawk_range = pair.into_inner();
-            let squawk_begin = squawk_range.next().unwrap().as_str().parse().unwrap();
-            let squawk_end = squawk_range.next().unwrap().as_str().parse().unwrap();
-            Some((squawk_begin, squawk_end))
+            let squawk_begin = squawk_range.next().unwrap().as_str().parse().ok();
+            let squawk_end = squawk_range.next().unwrap().as_str().parse().ok();
+            squawk_begin.zip(squawk_end)
         }
         _ => None,
     })
-- 
2.43.0


From 03e73772647600c0fb2519f4946648f9d477c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 19/26] fix: too large colour numbers do not crash the sector
 file parser

---
 src/sct.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index 5e05637..f8e3ebd 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -793,10 +793,11 @@ fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -
 fn parse_colour_definition(pair: Pair<Rule>) -> Option<(String, Colour)> {
     let mut pairs = pair.into_inner();
     let colour_name = pairs.next().unwrap().as_str().to_string();
-    match Colour::from_euroscope(pairs.next().unwrap().as_str().parse().unwrap()) {
-        Ok(colour_value) => Some((colour_name, colour_value)),
-        Err(e) => {
-            warn!("Could not parse colour {colour_name}: {e}");
+    let colour_str = pairs.next().unwrap().as_str();
+    match colour_str.parse().ok().map(Colour::from_euroscope) {
+        Some(Ok(colour_value)) => Some((colour_name, colour_value)),
+        _ => {
+            warn!("Could not parse colour {colour_name}: {colour_str}");
             None
         }
     }
-- 
2.43.0


From 4cddb59d0bdda5e81f710ec2a947578db66d4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 20/26] fix: runway headings of too many digits do not crash
 the sector file parser

---
 src/pest/sct.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index f2bb1ed..9e72ef7 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -59,12 +59,14 @@ colour_name = @{ (ASCII_ALPHANUMERIC | "-" | "_")+ }
 fix = { fix_designator ~ sct_coordinate }
 aerodrome = { designator ~ (frequency | ".")? ~ sct_coordinate ~ ctr_airspace }
 location = { designator ~ frequency ~ sct_coordinate }
-runway = { runway_designator ~ runway_designator ~ pos_integer ~ pos_integer ~ sct_coordinate ~ sct_coordinate ~ designator ~ (!NEWLINE ~ ANY)* }
+runway = { runway_designator ~ runway_designator ~ heading ~ heading ~ sct_coordinate ~ sct_coordinate ~ designator ~ (!NEWLINE ~ ANY)* }
 airway = { fix_designator ~ (sct_coordinate | airway_fix) ~ (sct_coordinate | airway_fix) }
 
 // invalid WPTs with spaces
 broken = @{ !("[" | "#") ~ (!NL ~ ANY)* }
 
+heading = @{ "+"? ~ ASCII_DIGIT{1, 4} }
+
 region = { "REGIONNAME"? ~ name ~ NL? ~ colour_name ~ sct_coordinate ~ (NL ~ sct_coordinate)* }
 
 ctr_airspace = { "A" | "B" | "C" | "D" | "E" | "F" | "G" }
-- 
2.43.0


From 6805b00717c880b1d26194b62f14ee16cd961d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 21/26] fix: colour, line weight and symbol numbers out of
 range do not crash the symbology parser

---
 src/symbology.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/symbology.rs b/src/symbology.rs
index 4648226..3cfb4d6 100644
--- a/src/symbology.rs
+++ b/src/symbology.rs
@@ -118,14 +118,13 @@ impl Item {
         let folder = item.next().unwrap().as_str().to_string();
         let name = item.next().unwrap().as_str().to_string();
         let colour_str = item.next().unwrap().as_str();
-        let colour_num = colour_str.parse::<i32>().unwrap();
         let font_size_symbol_scale = item.next().unwrap().as_str().parse().unwrap();
         let line_style = parse_linestyle(&item.next().unwrap());
-        let line_weight = item.next().unwrap().as_str().parse().unwrap();
+        let line_weight = item.next().unwrap().as_str().parse().unwrap_or(1);
         let text_alignment = parse_alignment(&item.next().unwrap());
 
-        match Colour::from_euroscope(colour_num) {
-            Ok(colour) => Some(Self {
+        match colour_str.parse().ok().map(Colour::from_euroscope) {
+            Some(Ok(colour)) => Some(Self {
                 folder,
                 name,
                 colour,
@@ -134,8 +133,8 @@ impl Item {
                 line_weight,
                 text_alignment,
             }),
-            Err(e) => {
-                warn!("Could not parse colour {folder}.{name}={colour_num}: {e}");
+            _ => {
+                warn!("Could not parse colour {folder}.{name}={colour_str}");
                 None
             }
         }
@@ -152,7 +151,8 @@ fn parse_point(pair: Pair<Rule>) -> (f64, f64) {
 // TODO similar to topsky symbol parsing, generalise?
 fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)> {
     let mut symbol = pair.into_inner();
-    let maybe_symbol_type = SymbolType::from_u32(symbol.next().unwrap().as_str().parse().unwrap());
+    let symbol_number = symbol.next().unwrap().as_str().parse().ok();
+    let maybe_symbol_type = symbol_number.and_then(SymbolType::from_u32);
     let symbol_rules = symbol
         .map(|pair| {
             let ruletype = pair.as_rule();
-- 
2.43.0


From cd9b86d50f572436957b59faba32c006ab302fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 22/26] fix: colour components above 255 do not crash the
 plugin map parser

---
 src/topsky/map/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..745ba25 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -376,9 +376,9 @@ pub(super) fn parse_colour(pair: Pair<Rule>) -> Option<ColourDef> {
         Rule::colourdef => {
             let mut colour = pair.into_inner();
             let name = colour.next().unwrap().as_str().to_string();
-            let r = colour.next().unwrap().as_str().parse().unwrap();
-            let g = colour.next().unwrap().as_str().parse().unwrap();
-            let b = colour.next().unwrap().as_str().parse().unwrap();
+            let r = colour.next().unwrap().as_str().parse().ok()?;
+            let g = colour.next().unwrap().as_str().parse().ok()?;
+            let b = colour.next().unwrap().as_str().parse().ok()?;
             Some(ColourDef {
                 name,
                 colour: Colour::from_rgb(r, g, b),
-- 
2.43.0


From edbcf2d458d4ca9d49685facb492336415fa47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 23/26] fix: coordinates of a decimal and a sexagesimal part do
 not crash the plugin map parser

---
 src/topsky/map/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 745ba25..0655652 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -60,7 +60,14 @@ fn parse_coord(pair: Pair<Rule>) -> Coord {
         (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
             Coord::from_deg_min_sec(lat, lng)
         }
-        _ => panic!("Consistency!"),
+        (CoordinatePart::Decimal(y), CoordinatePart::DegMinSec(lng)) => Coord {
+            y,
+            ..Coord::from_deg_min_sec(DegMinSec::default(), lng)
+        },
+        (CoordinatePart::DegMinSec(lat), CoordinatePart::Decimal(x)) => Coord {
+            x,
+            ..Coord::from_deg_min_sec(lat, DegMinSec::default())
+        },
     }
 }
 
-- 
2.43.0


From 8919c77aa48ece1149e05f39c438749fe5fe2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 24/26] fix: too high minimum levels do not crash the airway
 parser

---
 src/airway.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/airway.rs b/src/airway.rs
index 31a3ed2..d14ccb5 100644
--- a/src/airway.rs
+++ b/src/airway.rs
@@ -33,7 +33,7 @@ fn parse_coord(pair: Pair<Rule>) -> Point {
 fn parse_level(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::not_established => None,
-        Rule::level => Some(pair.as_str().parse().unwrap()),
+        Rule::level => pair.as_str().parse().ok(),
         rule => unreachable!("{rule:?}"),
     }
 }
-- 
2.43.0


From 73938303b6768a86e8424a10040d76298f0e61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 25/26] fix: display settings out of range do not crash the
 parser

---
 src/asr.rs | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7370616..96a48e2 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -241,35 +241,45 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::show_c => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowC),
         Rule::show_standby => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowStandby),
         Rule::above => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
-            Some(if filter == 0 {
-                AsrData::Above(None)
-            } else {
-                AsrData::Above(Some(filter))
+            let filter = inner.next().unwrap().as_str().parse().ok();
+            filter.map(|filter| {
+                if filter == 0 {
+                    AsrData::Above(None)
+                } else {
+                    AsrData::Above(Some(filter))
+                }
             })
         }
         Rule::below => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
-            Some(if filter == 0 {
-                AsrData::Below(None)
-            } else {
-                AsrData::Below(Some(filter))
+            let filter = inner.next().unwrap().as_str().parse().ok();
+            filter.map(|filter| {
+                if filter == 0 {
+                    AsrData::Below(None)
+                } else {
+                    AsrData::Below(Some(filter))
+                }
             })
         }
         Rule::leader => {
-            let leader = inner.next().unwrap().as_str().parse::<i8>().unwrap();
-            Some(if leader > 0 {
-                #[allow(clippy::cast_sign_loss)]
-                AsrData::Leader(Leader::Miles(leader as u8))
-            } else {
-                AsrData::Leader(Leader::Minutes(leader.unsigned_abs()))
+            let leader = inner.next().unwrap().as_str().parse::<i8>().ok();
+            leader.map(|leader| {
+                if leader > 0 {
+                    #[allow(clippy::cast_sign_loss)]
+                    AsrData::Leader(Leader::Miles(leader as u8))
+                } else {
+                    AsrData::Leader(Leader::Minutes(leader.unsigned_abs()))
+                }
             })
         }
         Rule::show_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowLeader),
         Rule::turn_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::TurnLeader),
-        Rule::history_dots => Some(AsrData::HistoryDots(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::history_dots => inner
+            .next()
+            .unwrap()
+            .as_str()
+            .parse()
+            .ok()
+            .map(AsrData::HistoryDots),
         Rule::simulation_mode => Some(AsrData::SimulationMode(
             match inner.next().unwrap().as_str() {
                 "1" => SimulationMode::Radar,
-- 
2.43.0


From 79d4c08588948cc3487897b3fab4c8677ffb5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:08 +0000
Subject: [PATCH 26/26] fix: window areas in degrees, minutes and seconds do
 not crash the display settings parser

---
 src/asr.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 96a48e2..7e2462b 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -7,7 +7,7 @@ use serde::Serialize;
 use thiserror::Error;
 use tracing::warn;
 
-use crate::TwoKeyMap;
+use crate::{Sign, TwoKeyMap};
 
 use super::read_to_string;
 
@@ -214,6 +214,22 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let pair = pair.into_inner().next().unwrap();
+    match pair.as_rule() {
+        Rule::DECIMAL => pair.as_str().parse().unwrap(),
+        _ => {
+            let mut coordinate_part = pair.into_inner();
+            let sign = Sign::from(coordinate_part.next().unwrap().as_str());
+            let deg: f64 = coordinate_part.next().unwrap().as_str().parse().unwrap();
+            let min: f64 = coordinate_part.next().unwrap().as_str().parse().unwrap();
+            let sec: f64 = coordinate_part.next().unwrap().as_str().parse().unwrap();
+
+            (deg + min / 60.0 + sec / 3600.0) * f64::from(sign.sign())
+        }
+    }
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -300,10 +316,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coordinate_part(inner.next().unwrap());
+            let lng1 = parse_coordinate_part(inner.next().unwrap());
+            let lat2 = parse_coordinate_part(inner.next().unwrap());
+            let lng2 = parse_coordinate_part(inner.next().unwrap());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
-- 
2.43.0

