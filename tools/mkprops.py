#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "The airway graph records exactly the segments it was given",
  "After any sequence of airway.txt segments, two waypoints are neighbours on an airway exactly if some segment joined them, each undirected neighbourhood is visible from both ends, and a direction is marked valid exactly if some segment allowed it; the minimum level kept is the lowest stated one. A waypoint is identified by its name together with its position (to a millionth of a degree), and names, positions and airways never get mixed up with each other.",
  ["histories", "inputs"], "every finite sequence of segment insertions, in any order, with repeated, reversed, same-named and self-joining waypoints",
  "The tests insert a handful of segments; the guarantee is about every insertion history, in particular about merges of repeated edges, duplicate designators at different positions and the id tables staying in step.",
  ["src/adaptation/locations/airways.rs", "src/airway.rs"],
  [("insert_or_update_segment", "src/adaptation/locations/airways.rs"), ("insert_or_update_edge", "src/adaptation/locations/airways.rs"), ("get_or_insert_fix_id", "src/adaptation/locations/airways.rs"), ("get_or_insert_airway_id", "src/adaptation/locations/airways.rs")],
  [("fixes/edges", "adjacency per waypoint and airway", "src/adaptation/locations/airways.rs"), ("id tables", "name <-> id in both directions", "src/adaptation/locations/airways.rs")],
  ["parse_airway_txt followed by expansion queries", "serialised graph"])

p("C02", "Expanding a route segment along an airway returns a real path on it",
  "Expanding from one waypoint to another along an airway either yields nothing or a sequence that starts next to the start, ends at the requested end, moves only along segments of that airway and never reverses at a waypoint; each element carries the direction flag and minimum level of the segment leading to it. The call always terminates, never panics, and finds the end whenever following the airway unbranched from the start reaches it.",
  ["inputs", "histories"], "every airway graph reachable by insertions, every start, end and airway name, known or not",
  "The tests expand a few segments of one small sample; cycles, branches, dead ends, loops to the start and unknown names form an unbounded space.",
  ["src/adaptation/locations/airways.rs"],
  [("expand_airway_segment", "src/adaptation/locations/airways.rs"), ("traverse_airway", "src/adaptation/locations/airways.rs")],
  None, ["AirwayGraph::expand_airway_segment"])

p("C03", "Waypoint names resolve by a fixed precedence, consistently everywhere",
  "A designator resolves to a VOR if one has that name, else an NDB, else a fix, else an airport, else a runway threshold (airport followed by runway), else a coordinate literal, else a range/bearing from a known point, and otherwise to nothing; among VORs, NDBs or fixes of one name the first wins. The membership queries agree with it: a name is reported known exactly if it resolves by name or runway, and a name-at-position query is true exactly if any VOR, NDB or fix of that name lies there.",
  ["inputs", "configurations"], "every set of VORs, NDBs, fixes, airports and runways (with duplicates), every designator string and position",
  "Tests look up a few names in one fixture; precedence only shows when several kinds share a name and the duplicates case needs two entries of one name at different places.",
  ["src/adaptation/locations/mod.rs"],
  [("convert_designator/convert_fix/convert_rwy", "src/adaptation/locations/mod.rs"), ("contains_designator", "src/adaptation/locations/mod.rs"), ("contains_nav_element", "src/adaptation/locations/mod.rs")],
  None, ["Locations::convert_designator", "Locations::contains_designator", "Locations::contains_nav_element", "Locations::convert_location"])

p("C04", "Coordinate waypoints convert to exactly the position they spell",
  "A coordinate waypoint (latitude N/S, longitude E/W, in whole degrees, degrees-minutes or degrees-minutes-seconds of matching precision) resolves to the position it spells with the hemisphere's sign, and its designator is the zero-padded form; a missing leading zero is accepted, mismatched precision or an abbreviated leading zero is rejected. Any other string is simply not a coordinate; no string makes the conversion panic.",
  ["inputs"], "every string, including non-ASCII digits and every length combination",
  "Tests sample a few well-formed spellings; the rule combines six length classes, four hemispheres and arbitrary text around them.",
  ["src/adaptation/locations/mod.rs"],
  [("convert_coordinate", "src/adaptation/locations/mod.rs"), ("coord_regex", "src/adaptation/locations/mod.rs")],
  None, ["Locations::convert_designator"])

p("C05", "A sector border becomes one closed ring using every segment once",
  "From the border lines of a sector a polygon is built exactly when its segments can be walked as one closed circuit; the ring then uses every border segment exactly once, in either direction, and nothing else, and it starts and ends at the same point. In every other case the volume is left out; no border makes the computation panic or hang.",
  ["inputs"], "every list of border lines, in any order and orientation, with duplicate, zero-length, crossing, open or disconnected pieces",
  "Tests use a few well-formed borders; correctness of circuit finding depends on traversal choices that vary with hash order and on degenerate multigraphs.",
  ["src/adaptation/sectors.rs", "src/adaptation/mod.rs"],
  [("polygon_from_ese", "src/adaptation/sectors.rs"), ("quantize", "src/adaptation/mod.rs")],
  None, ["Sectors::from_ese volumes' lateral_border"])

p("C06", "Every valid volume belongs to exactly one sector with its owners",
  "Volumes are grouped into sectors exactly by equal owner priority list and runway condition: every volume with a valid border appears in exactly one sector, that sector lists precisely the volumes of the group, its aerodrome sets are the unions of its members' ones, and levels are carried over unchanged. The sector's identifier is one of its volumes and the key it is stored under; the result does not depend on anything but the input.",
  ["inputs", "schedules"], "every set of parsed sectors; every hash-map iteration order",
  "Tests run one sample under one hash seed; grouping, unions and independence from iteration order are statements about all inputs and all seeds.",
  ["src/adaptation/sectors.rs"],
  [("Sectors::from_ese", "src/adaptation/sectors.rs"), ("find_id_by_volume", "src/adaptation/sectors.rs")],
  None, ["Sectors::from_ese", "Sectors::find_id_by_volume"])

p("C07", "Sector lookup returns the lowest-named staffed sector at a point",
  "The sector found at a position and level is the smallest identifier among sectors with at least one owner that have a volume whose border contains the position and whose level band (lower inclusive, upper exclusive) contains the level, and none if there is no such sector. Queries by position alone return exactly the containing volumes, corridor queries miss no volume that touches the line, and after a rebuild answers reflect the current data.",
  ["inputs", "histories"], "every set of sectors and volumes, every position, level and line; every sequence of mutation, rebuild, clone and query",
  "Tests place a handful of squares; overlap, tie-breaks, band edges and stale-index histories are unbounded.",
  ["src/adaptation/sector_index.rs", "src/adaptation/mod.rs"],
  [("find_sector/volumes_at/volumes_near_line", "src/adaptation/sector_index.rs"), ("build_tree/rebuild", "src/adaptation/sector_index.rs")],
  [("cached tree", "spatial index over staffed sectors' volumes", "src/adaptation/sector_index.rs")],
  ["Adaptation::find_sector", "Adaptation::volumes_at", "Adaptation::volumes_near_line", "Adaptation::rebuild_sector_index"])

p("C08", "Coordination timing takes the most specific value, field by field",
  "For each of the ABI, ACT and REV times independently, the effective value is the matched constraint's own if it states one, else the partner FIR's override if there is one, else the global value. A field left open at one level never hides or leaks another field.",
  ["configurations", "inputs"], "every combination of present and absent overrides at both levels, for known and unknown FIRs",
  "There are 2^6 presence patterns times arbitrary values; tests check a few.",
  ["src/adaptation/settings/mod.rs"],
  [("CoordinationSettings::resolve", "src/adaptation/settings/mod.rs")], None, ["CoordinationSettings::resolve"])

p("C09", "Special-use squawks expand to exactly the stated octal codes",
  "Every squawk definition with a single valid octal code or a valid inclusive octal range contributes exactly those codes, written with at least four octal digits, mapped to its message, and nothing else is contributed; where definitions overlap the later one wins. Invalid, missing or doubly specified definitions contribute nothing and never panic.",
  ["inputs"], "every list of definitions, including the extreme and reversed ranges",
  "Range expansion, radix handling and overlaps are statements about all 65536 codes and all lists.",
  ["src/adaptation/settings/mod.rs", "src/squawks.rs"],
  [("SsrSettings::from_squawks_json", "src/adaptation/settings/mod.rs")], None, ["SsrSettings::special_use_codes"])

p("C10", "Each map element is drawn with the settings in force where it stands",
  "In a map, every line, text, symbol and polygon ends up in order in a group whose colour, font size, layer, zoom, filter and line style are the ones set by the rules preceding it and by none that follow it; before any colour rule it is drawn in the map's first resolvable colour. No resolvable element is lost or duplicated, and coordinate buffers are consumed by exactly the next shape. An activity condition names every entry its lists name; ACTIVE opens a new alternative and AND_ACTIVE joins the last one.",
  ["inputs", "histories"], "every sequence of map rules, settings and name tables",
  "The state machine over twenty kinds of rules has unbounded sequences; the tests fold a few samples.",
  ["src/adaptation/maps/mod.rs", "src/topsky/map/mod.rs", "src/topsky/map/active.rs"],
  [("MapRule::parse", "src/topsky/map/mod.rs"), ("Active::parse", "src/topsky/map/active.rs"), ("from_topsky", "src/adaptation/maps/mod.rs"), ("config_change", "src/adaptation/maps/mod.rs"), ("add_topsky_*", "src/adaptation/maps/mod.rs")],
  [("current group", "last map group carries the settings in force", "src/adaptation/maps/mod.rs")],
  ["maps::from_topsky"])

p("C11", "No map is lost or overwritten when maps are sorted into folders",
  "Every map definition with a resolvable colour appears exactly once, in the folder it names (the automatic folder if it names none), under its own name or that name with the smallest free numeric suffix; existing maps are never overwritten. A folder is hidden exactly if it is the automatic folder or an override hides it as a whole.",
  ["inputs", "histories"], "every sequence of map definitions, with colliding and adversarially suffixed names",
  "Name collisions with names that already carry suffixes only appear in particular sequences; tests contain none.",
  ["src/adaptation/maps/mod.rs"],
  [("from_topsky folder entry", "src/adaptation/maps/mod.rs")], None, ["maps::from_topsky"])

p("C12", "Joining consecutive line segments keeps exactly the original segments",
  "When consecutive segments of the sector file or points of a map line are joined into polylines, the polylines contain exactly the original segments in their original order and direction, grouped by colour changes; only zero-length segments may disappear. A new polyline starts exactly where a segment does not continue from the previous end.",
  ["inputs"], "every sequence of segments, with repeated points, colour changes, breaks and single segments",
  "The joining is a left-to-right state machine over unbounded sequences; tests exercise a few shapes.",
  ["src/sct.rs", "src/topsky/map/mod.rs"],
  [("parse_line_groups", "src/sct.rs"), ("MapLine::parse", "src/topsky/map/mod.rs")], None, ["Sct::parse line groups", "MapRule::Line"])

p("C13", "Colours convert to and from packed integers without loss",
  "A packed colour integer decodes exactly if it lies in 0..2^24, to the red, green and blue bytes it packs with full opacity; encoding is the inverse on that range and ignores opacity. Text form #rrggbb round-trips every opaque colour and any other text is refused.",
  ["inputs"], "all 2^32 integers and all 2^24 colours; every string",
  "Tests decode a few constants; negative values, values above 2^24 and truncation need the whole range.",
  ["src/adaptation/colours.rs"],
  [("Colour::from_euroscope/to_euroscope", "src/adaptation/colours.rs"), ("ColourVisitor / Serialize", "src/adaptation/colours.rs")], None, ["Colour"])

p("C14", "Every visual setting reads its own key and falls back in order",
  "Each colour, line style, label and symbol slot takes the value configured under that slot's own name, else the documented default for the active mode, else the built-in constant of that same slot; no slot reads another's key. A named colour resolves to the plugin's definition, else the sector file's, else the mode's default colour; plugin line styles are found under their upper-case names and never change the meaning of a built-in line style.",
  ["configurations"], "every symbology, plugin settings and colour table, present or absent per slot",
  "There are over eighty slots with three-level fallbacks; cross-wired keys are invisible unless that one slot is configured differently from its neighbour.",
  ["src/adaptation/colours.rs", "src/adaptation/symbols.rs", "src/adaptation/settings/mod.rs", "src/adaptation/line_styles.rs"],
  [("MapColours/TrackColours/UIColours/SectorColours::from_euroscope", "src/adaptation/colours.rs"), ("Symbols::from_euroscope", "src/adaptation/symbols.rs"), ("LineSettings/LabelSettings::from_euroscope", "src/adaptation/settings/mod.rs"), ("Colours::get", "src/adaptation/colours.rs")],
  None, ["Colours", "Symbols", "Settings.maps"])

p("C15", "Constraints are split by direction and none with a level is dropped",
  "A constraint is kept exactly if it states a climb or descent level; it is a departure constraint exactly if it states a climb level, and a destination constraint otherwise. Constraints that differ in aerodrome, runway, fix or sector never replace one another, and a kept constraint is retrievable unchanged under its key unless a later one has the same key.",
  ["inputs"], "every list of constraints with every pattern of present and absent fields, any characters in names",
  "Key collisions need particular pairs of constraints; tests compare one pair.",
  ["src/adaptation/constraints.rs", "src/ese.rs"],
  [("extract_constraints", "src/adaptation/constraints.rs"), ("Constraint::key", "src/ese.rs")], None, ["Adaptation.departure_constraints", "Adaptation.destination_constraints", "Constraint::key"])

p("C16", "Degree-minute-second coordinates convert faithfully both ways",
  "A degrees/minutes/seconds coordinate becomes the decimal value degrees + minutes/60 + seconds/3600 with the hemisphere's sign. Printing a decimal coordinate within the valid range yields minutes and seconds below 60 and a text that reads back to within half a thousandth of a second of the original, with the right hemisphere.",
  ["inputs"], "every degree, minute and second value in range; every finite coordinate with |lat| <= 90, |lon| <= 180",
  "Rounding carries show only for values within a few 1e-7 degrees below a full minute or degree; tests print a handful of coordinates.",
  ["src/lib.rs"],
  [("from_deg_min_sec", "src/lib.rs"), ("decimal_to_dms and the *_fmt functions", "src/lib.rs")], None, ["DegMinSecExt", "Sct Display"])

p("C17", "Positions equal to a millionth of a degree are the same waypoint",
  "Two fixes are equal exactly if their names are equal and their coordinates agree after rounding to a millionth of a degree; equality is an equivalence relation and equal fixes hash alike, so they are one key in any table.",
  ["inputs"], "every pair and triple of fixes, any coordinates",
  "Hash/equality agreement and transitivity are relations over all pairs and triples of floating-point values.",
  ["src/adaptation/locations/mod.rs", "src/adaptation/mod.rs"],
  [("Fix Hash/PartialEq, GraphPosition PartialEq", "src/adaptation/locations/mod.rs"), ("Quantize", "src/adaptation/mod.rs")], None, ["Fix", "GraphPosition"])

p("C18", "Reference tables keep the first definition and lose no record",
  "Parsing aircraft, airline and airport reference files yields one entry per distinct key, holding the data of the first record with that key, and every well-formed record's key is present. Airport data is merged so that sector-file airports keep their position and runways and gain name and country, and missing airports are added from navigation data.",
  ["inputs"], "every sequence of records, with duplicate keys in any order",
  "First-wins only shows with duplicates; merge precedence needs airports present in each combination of three sources.",
  ["src/icao_aircraft.rs", "src/icao_airlines.rs", "src/icao_airports.rs", "src/navdata_airports.rs", "src/adaptation/locations/mod.rs"],
  [("parse_aircraft/parse_airlines/parse_airports/parse_navdata_airports", "src/icao_*.rs"), ("Locations::from_euroscope airport folds", "src/adaptation/locations/mod.rs")], None, ["AircraftMap", "Locations.airports"])

p("C19", "Airways are drawn with both ends and every segment present",
  "For each sector-file airway, the drawn polylines contain every segment whose two ends resolve, between the two resolved positions (to a millionth of a degree), and no segment that the file does not contain. Segments with an unresolvable end are left out without affecting the others.",
  ["inputs"], "every list of airway segments and every name table; branches, loops, repeated and zero-length segments",
  "The conversion has no effective test, and joining depends on the shape of the whole segment list.",
  ["src/adaptation/sct_items.rs"],
  [("airway_to_multi_line_string", "src/adaptation/sct_items.rs"), ("build_linestring", "src/adaptation/sct_items.rs")], None, ["SctItems.high_airways", "SctItems.low_airways"])

p("C20", "No input file can crash a parser",
  "Every file parser returns a value or an error for every byte sequence; none panics, aborts or loops forever. This covers sector, ESE, plugin, symbology, profile, display-settings, airway, reference and navigation files, valid or corrupted, in UTF-8 or Windows-1252.",
  ["inputs", "fault_sequences"], "every byte string given to each parser entry point",
  "Tests feed well-formed samples; each grammar admits numbers and shapes that the conversion code behind it must also accept.",
  ["src/sct.rs", "src/ese.rs", "src/topsky", "src/asr.rs", "src/symbology.rs", "src/prf.rs", "src/airway.rs", "src/isec.rs", "src/icao_aircraft.rs", "src/icao_airlines.rs", "src/icao_airports.rs", "src/navdata_airports.rs", "src/squawks.rs", "src/lib.rs"],
  [("pest grammars plus conversion functions", "src/pest, src/*.rs"), ("read_to_string", "src/lib.rs")], None, ["every public parse entry point"])

p("C21", "A sector file printed back reads as the same sector file",
  "Printing a parsed sector file in the radar client's format and parsing that text again gives the same content: the same info block, colours, navigation aids, airports, runways, airways, lines, regions and labels, with positions equal to within the printed precision. Printing is stable from then on.",
  ["inputs"], "every sector file the parser accepts",
  "Tests print one sample; separators, optional fields, colour changes and rounding interact across all sections.",
  ["src/sct.rs", "src/lib.rs"],
  [("Display/ToEuroscope implementations", "src/sct.rs"), ("Sct::parse", "src/sct.rs")], None, ["Sct Display", "Sct::parse"])

p("C22", "Aircraft type data is decoded totally and looked up safely",
  "Wake category, airframe and engine letters decode to their documented meaning and any other text is an error; the category of an unknown or missing aircraft type is unknown, and of a known one the recorded one. Decoding the printed letter of a known category gives the category back.",
  ["inputs"], "every string and every aircraft table",
  "Tests decode a few letters; the claim is about every string and table.",
  ["src/adaptation/icao.rs"],
  [("FromStr/Display of Wtc, AircraftType, EngineType", "src/adaptation/icao.rs"), ("AircraftMap::wtc", "src/adaptation/icao.rs")], None, ["Wtc", "AircraftMap::wtc"])

p("C23", "Plugin settings yield the configured value or the stated default",
  "Looking up a plugin setting returns its value if it is present and reads as the wanted type, and the caller's default otherwise, never anything else and never a failure. A setting given more than once counts with its last general value; in a file that reads at all, malformed values never affect other settings.",
  ["configurations", "inputs"], "every settings table, key, value text and default",
  "Tests look up a few present values; absence and unparsable text for each type are unbounded.",
  ["src/topsky/settings.rs", "src/adaptation/settings/track.rs", "src/adaptation/settings/mod.rs"],
  [("Settings::parse_with_default", "src/topsky/settings.rs"), ("HistoryDotsSettings/VectorSettings::from_topsky", "src/adaptation/settings/track.rs")], None, ["Settings", "TrackSettings"])

p("C24", "Text files decode losslessly as UTF-8, otherwise as Windows-1252",
  "Any byte sequence decodes to text: valid UTF-8 unchanged, anything else byte by byte as Windows-1252 (unless it starts with a byte order mark, which then decides), never failing. Pure ASCII content is read identically whichever encoding a file is saved in.",
  ["inputs"], "every byte sequence",
  "Tests read UTF-8 samples; encoding detection is about every mixture of bytes.",
  ["src/lib.rs"], [("read_to_string", "src/lib.rs")], None, ["every parse entry point taking bytes"])

p("C25", "Overlays change only what they name",
  "Applying no overlay, or overlays that set nothing, leaves the adaptation unchanged; an overlay changes exactly the fields it names, later overlays winning over earlier ones. Serialising an adaptation and reading it back loses nothing, and the spatial index afterwards reflects the merged data.",
  ["configurations", "histories"], "every adaptation and every sequence of overlay files",
  "Tests apply none or one; the guarantee is over arbitrary data passing through text form and an external evaluator.",
  ["src/adaptation/mod.rs"], [("apply_jsonnet_overlays", "src/adaptation/mod.rs")], None, ["Adaptation::apply_jsonnet_overlays"])

p("C26", "Sector borders consist of exactly the lines they name",
  "Each parsed sector's border consists, in order, of the border lines its definition names, with the line's points unchanged, and every sector of the airspace section is available under its own identifier (the last block of an identifier counts); a reference to an undefined line is dropped without affecting others. Levels, owners, aerodromes and activity conditions are those of the sector's own block.",
  ["inputs"], "every combination of line and sector definitions in any order",
  "Tests parse one sample file; cross-references across arbitrary blocks are unbounded.",
  ["src/ese.rs"], [("collect_sectors/combine_sectors_with_borders", "src/ese.rs"), ("Sector::parse", "src/ese.rs")], None, ["Ese::parse sectors"])

p("C27", "Every departure and arrival route keeps its waypoints in order",
  "Every SID and STAR line of the ESE file's route section (its last one) is available under its airport and name, lines of one name in file order, departures apart from arrivals, each with its runway (none if the line names none) and exactly its resolvable waypoints in order, each with the position its name resolves to. A waypoint that does not resolve is left out without affecting the rest.",
  ["inputs"], "every list of SID and STAR lines and every name table",
  "Tests parse one route of each kind; grouping shows only with several lines of one airport and name, dropping only with unresolvable points at each place.",
  ["src/ese.rs", "src/adaptation/locations/mod.rs"],
  [("parse_sid_star", "src/ese.rs"), ("Locations::from_euroscope", "src/adaptation/locations/mod.rs")], None, ["Locations.sids", "Locations.stars"])

p("C28", "Sector-file drawings keep every entry, group and point",
  "Every SID, STAR, ARTCC boundary and geography entry of a sector file is available under its name, with its line groups in file order. Each group has the colour its colour name resolves to (the SID colour where it names none or an unknown one) and its polylines, each made of the entry's resolvable points in order with immediate repetitions removed; lines and groups without any resolvable point are left out without affecting others. Regions and labels are available under their names unchanged.",
  ["inputs"], "every list of drawing entries, groups, lines and points, every name table and colour table",
  "Dropping is decided per point, line and group; tests convert one sample and look at a few entries.",
  ["src/adaptation/sct_items.rs"],
  [("SctItems::from_sct", "src/adaptation/sct_items.rs"), ("ColouredLines::from_location_coloured_lines", "src/adaptation/sct_items.rs")], None, ["SctItems"])

p("C29", "Every controller position is available with its stated data",
  "Every position line of an ESE file's (last) positions section is available under its identifier (the last line of an identifier counts) with its stated name, callsign, frequency, prefix, middle and suffix parts, its squawk range (none where the line gives none) and its visibility points in order, whether or not a squawk range is given; the adaptation holds exactly the same positions.",
  ["inputs"], "every list of position lines",
  "Each field is one token of a long line with optional parts; tests look at a few lines that give all of them.",
  ["src/ese.rs", "src/adaptation/positions.rs"],
  [("parse_position", "src/ese.rs"), ("Position::from_ese_positions", "src/adaptation/positions.rs")], None, ["Ese.positions", "Adaptation.positions"])

p("C30", "A profile leads to the files it names",
  "Each file accessor of a profile leads to the path its setting states: blanks at the end dropped, backslashes as separators, a leading separator meaning the profile's own folder and anything else the working directory; the ESE file lies beside the sector file with extension ese and isec.txt beside the airway file. The last setting of a category and key counts. The TopSky folder and the Squawks file are those of the first setting, by category and key, whose path names TopSky.dll or Squawks.dll, the same one on every run; no such setting, no path.",
  ["inputs", "hash order"], "every list of settings and every order in which a hash map yields them",
  "Tests read one profile with one entry of each plugin; which of several counts depends on the process's hash seed.",
  ["src/prf.rs"], [("Prf::join_settings_path", "src/prf.rs"), ("Prf::topsky_path", "src/prf.rs"), ("Prf::parse", "src/prf.rs")], None, ["Prf accessors"])

p("C31", "Display settings are those the file states",
  "For every display settings file, each setting is what the first line of its kind whose value is valid for it states (filters of zero meaning none, positive leader lengths miles and others minutes, unknown display types and simulation modes the radar), and its documented default where the file has none. A plugin setting given twice is what the later line says. The map elements of each kind are exactly those listed, in the order of the file, with the part to show; extended centrelines are left out. A window area in decimal degrees and one in degrees, minutes and seconds mean the same place.",
  ["inputs"], "every list of lines of every kind, repeated kinds, values out of range",
  "Thirty-six kinds of lines with repeated, missing and out-of-range values; tests read two sample files.",
  ["src/asr.rs", "src/pest/asr.pest"],
  [("parse_setting", "src/asr.rs"), ("Asr::parse", "src/asr.rs"), ("AsrMap::from", "src/asr.rs")], None, ["Asr"])

p("C32", "Symbols and symbology items are those the files state",
  "A symbology file gives each item (by folder and name) with its colour, size, line style, line weight (one where it does not fit) and text alignment, the later of two lines counting and lines without a valid colour left out; and each symbol, by its number in the radar client's list, as its drawing lines in order. A plugin symbol is likewise its drawing lines in order, the last definition of a name counting and definitions in the map file over those in the symbol file. Angles are taken modulo a full turn, ellipses of equal radii are circles, rectangles are their four corners.",
  ["inputs"], "every list of items and symbols and every sequence of drawing lines",
  "Twenty-four symbol numbers, nine alignments and eleven drawing lines; tests read one sample of each file.",
  ["src/symbology.rs", "src/topsky/symbol.rs", "src/topsky/mod.rs"],
  [("Item::parse", "src/symbology.rs"), ("parse_symbol_rules", "src/symbology.rs"), ("Symbology::parse", "src/symbology.rs"), ("parse_symbol_rules", "src/topsky/symbol.rs"), ("parse_topsky_symbols", "src/topsky/symbol.rs")], None, ["Symbology", "Topsky.symbols"])

p("C33", "Every waypoint of the intersection file is available",
  "Every line of an isec.txt is available under its designator with its latitude and longitude; several waypoints of a designator are all kept, in the order of the file, and nothing else is in the result.",
  ["inputs"], "every list of lines, repeated designators with equal and different positions",
  "Tests read six lines; which waypoint of a repeated designator is found later (C03) depends on all of them being kept.",
  ["src/isec.rs"], [("parse_isec_txt", "src/isec.rs"), ("parse_coord", "src/isec.rs")], None, ["IsecMap"])

p("C34", "A plugin folder defines what its files state",
  "Reading a plugin folder gives the maps of its map file, all of them and in order, and its overrides likewise (an override among a map's own lines belongs to that map); each colour, line style and symbol as the last line defining its name states it, definitions in the map file over those of the settings and symbol files. A colour line with a component above 255 defines nothing. The folder reads exactly if its settings and map files do, and its symbol file if there is one.",
  ["inputs"], "every list of definitions, every combination of the three files",
  "Definitions of five kinds repeat and override each other across three files; tests read three maps of one file.",
  ["src/topsky/mod.rs", "src/topsky/map/mod.rs", "src/topsky/settings.rs"],
  [("parse_topsky_maps", "src/topsky/map/mod.rs"), ("Topsky::parse", "src/topsky/mod.rs"), ("parse_topsky_settings", "src/topsky/settings.rs")], None, ["Topsky"])

p("C35", "A sector file yields every entry of its sections as written",
  "Reading a sector file gives the airports, fixes, beacons, runways, SIDs, STARs, ARTCC boundaries, airways, regions, labels and geo entries of their sections: all of them, in the file's order, each with the texts, numbers and positions of its own line (lines joined as C12 says). Colour definitions may stand before, between and after sections and entries without displacing any; of a colour name the last definition that is a colour counts. A fix or beacon line that makes no sense is left out alone. If a kind of section comes twice, the later one counts. The information section gives its values in order; without a scale that is 0.",
  ["inputs"], "every sector file: any sections in any order, any entries, colour definitions anywhere",
  "Sixteen kinds of section share one shape in which entries, colour definitions and unreadable lines mix freely; tests read two small files.",
  ["src/sct.rs"],
  [("Sct::parse", "src/sct.rs"), ("parse_independent_section", "src/sct.rs"), ("store_colour", "src/sct.rs")], None, ["Sct"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
