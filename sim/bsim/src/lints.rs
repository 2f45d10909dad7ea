//! P37: mistakes that are reported where they were made, and nothing else.
use crate::exec::run;
use crate::full::sound;
use crate::tools::{blind, calm, cmd, lay, tail, trouble, words, Files};
use crate::util::*;
use simcore::driver::{bad, Info, Property, Scenario, Verdict};
use simcore::scratch::Dir;
use simcore::tape::{hash_bytes, hash_str, mix};
use simcore::{ensure, gen, genp, sim};
use std::collections::BTreeMap;

/// (the lint it belongs to, its usual level, the title of the report); the place of each is marked with « in the text.
type Told = (&'static str, &'static str, &'static str);
struct Mistake { text: &'static str, told: &'static [Told] }
const fn m(text: &'static str, told: &'static [Told]) -> Mistake { Mistake { text, told } }
const C1: &str = "property's value could not be parsed";
const C2: &str = "property was defined more than once";
const C3: &str = "class defined multiple times";
const C4: &str = "class's parent is not present";
const C9: &str = "magazine defined in CfgMagazineWells was not found in CfgMagazines";
const C5: &str = "parent case does not match parent definition";
/// `@` becomes something that is not used anywhere else.
const CONFIG: &[Mistake] = &[
    m("class A@ {\n    data = «1.0.0;\n};\n", &[("", "error", C1)]),
    m("class A@ { data = «true; };\n", &[("", "error", C1)]),
    m("class A@ {\n\n    data[] = {1, «two, \"x\", {«three}};\n};\n", &[("", "error", C1), ("", "error", C1)]),
    m("#define V_@ 1.0.0\nclass A@ {\n    data = «V_@;\n};\n", &[("", "error", "macro's result could not be parsed")]),
    m("class A@ {\n    data = 1;\n    other = 2;\n    «data = 2;\n};\n", &[("", "error", C2)]),
    m("class A@ {\n    data = 1;\n    DATA[] = {2};\n    class B {\n        data = 1;\n    };\n    «Data = 2;\n};\n", &[("", "error", C2)]),
    m("class A@ {\n    class data {\n        x = 1;\n    };\n    «data = 1;\n};\n", &[("", "error", C2)]),
    m("class A@ {\n    data = 1;\n    class «Data {};\n};\n", &[("", "error", C2)]),
    m("class «A@ {\n    data = 1;\n    class B {};\n};\nclass A@ {\n    «data = 2;\n    class b {};\n};\n", &[("", "error", C3), ("", "error", C2)]),
    m("class A@ {\n    class «B;\n    class b {};\n    class C {};\n};\n", &[("", "error", C3)]),
    m("class A@ {\n    class B: «Missing@ {};\n};\n", &[("", "error", C4)]),
    m("class A@: «Missing@ {\n    data = 1;\n};\n", &[("", "error", C4)]),
    m("class B@ {};\nclass A@: «b@ {};\n", &[("external_parent_case", "error", C5)]),
    m("class B@;\nclass A@: B@ {};\nclass C@: «a@ {};\n", &[("external_parent_case", "error", C5)]),
    m("class A@ {\n    «data = {1, 2};\n};\n", &[("", "error", "property was not expected to be an array")]),
    m("class A@ {\n    «data[] = 1;\n    other[] = {};\n};\n", &[("", "error", "property was expected to be an array")]),
    m("class A@ {\n    «data[] = \"text\";\n};\n", &[("", "error", "property was expected to be an array")]),
    m("class A@ {\n    data = 1«\n    other = 2;\n};\n", &[("", "error", "property is missing a semicolon")]),
    m("class B@;\nclass A@: B@«\n;\nclass C@ {};\n", &[("", "error", "classes must use braces when inheriting")]),
    m("class CfgMagazines {\n    class tst_a {};\n    class other {};\n};\nclass CfgMagazineWells {\n    class A@ {\n        list[] = {\"tst_a\", «\"tst_c\", \"unknown\", «\"TST_b\"};\n    };\n};\n", &[("magwell_missing_magazine", "error", C9), ("magwell_missing_magazine", "error", C9)]),
    m("#define R_@ 1\n#define «R_@ 2\nclass A@ {\n    data = R_@;\n};\n", &[("", "warning", "redefining macro")]),
    m("class A@ {\n    class B: «C@ {};\n    class C@ {};\n};\n", &[("", "error", C4)]),
    m("class A@ {\n    class B@ {\n        class C@: «D@ {};\n    };\n};\nclass E@: C@ {};\nclass F@: «D@ {};\n", &[("", "error", C4), ("", "error", C4)]),
    m("class B@ {\n    class Inner@ {};\n};\nclass A@: B@ {\n    class X: «inner@ {};\n};\n", &[("external_parent_case", "error", C5)]),
    m("class A@: «a@ {};\n", &[("external_parent_case", "error", C5)]),
    m("class A@ {\n    a = 1;\n    b = 2;\n    «A = 3;\n    «B = 4;\n};\n", &[("", "error", C2), ("", "error", C2)]),
    m("class A@ {\n    class B {\n        x = 1;\n        y = 1;\n        «X = 2;\n    };\n    class C {\n        x = 1;\n    };\n    x = 1;\n};\n", &[("", "error", C2)]),
    m("class A@ {\n    class «X {};\n    data = 2;\n    class x {};\n    class y {};\n};\n", &[("", "error", C3)]),
    m("class A@ {\n    class B {\n        data = «value; // a note\n    };\n    other = «some thing;\n};\n", &[("", "error", C1), ("", "error", C1)]),
    m("class A@ {\n    data[] = {«1.2.3, 1.2, -3, \"1.2.3\", 4e2};\n};\n", &[("", "error", C1)]),
    m("class A@ {\n    «data = {};\n    other = 1;\n    class B {\n        «list = {{1}, {\"2\"}};\n    };\n};\n", &[("", "error", "property was not expected to be an array"), ("", "error", "property was not expected to be an array")]),
    m("class A@ {\n    «data[] = -1;\n    class B {\n        «data[] = \"1\";\n    };\n};\n", &[("", "error", "property was expected to be an array"), ("", "error", "property was expected to be an array")]),
    m("class A@ {\n    class B {\n        data = 1;\n        other = \"text\"«\n    };\n    more[] = {1, 2}«\n};\n", &[("", "error", "property is missing a semicolon"), ("", "error", "property is missing a semicolon")]),
    m("#define R_@(a) a\n#define «R_@(a) (a)\n#undef R_@\n#define R_@ 2\n#define «R_@ 3\n", &[("", "warning", "redefining macro"), ("", "warning", "redefining macro")]),
];
/// Nothing else is read of a file with one of these.
const FATAL: &[Mistake] = &[
    m("#include \"«missing@.hpp\"\n", &[("", "error", "include not found")]),
    m("#define F_@(a) a\nclass A@ {\n    data = «F_@(1,2);\n};\n", &[("", "error", "function call with incorrect number of arguments")]),
    m("#«nothing@ 1\n", &[("", "error", "unknown directive")]),
    m("#if UNKNOWN_@ == 1\n#endif\n#if «UNKNOWN_@\n#endif\n", &[("", "error", "attempted to use `#if` on an undefined macro")]),
    m("#define «__LINE__ 1\n", &[("", "error", "tried changing a built-in macro")]),
    m("#ifdef UNKNOWN_@\n#else\n#«else\n#endif\n", &[("", "error", "multiple `#else` directives found in a single `#if`")]),
    m("#if «__has_include(\"x@.hpp\")\n#endif\n", &[("", "error", "use of `__has_include`")]),
];
const CLEAN: &[&str] = &[
    "class A@ {\n    data = 1;\n    text = \"a; b = {\";\n    list[] = {1, \"two\", {3, {}}};\n    list2[] += {1};\n};\n",
    "class A@ {\n    class B {\n        data = 1;\n    };\n    class C {\n        data = 1;\n        class B {};\n    };\n    delete D;\n};\n",
    "class B@;\nclass A@: B@ {\n    data = -1e3;\n};\nclass C@: A@ {};\n",
    "#define V_@ 1\nclass A@ {\n    data = V_@;\n};\n#undef V_@\n#define V_@ 2\n",
    "#define Q_@(x) #x\nclass A@ {\n    data = Q_@(1.0.0);\n};\n",
    "class A@ {\n    name = 1;\n};\nclass B@ {\n    name = 2;\n    class A@ {};\n};\n",
    "class A@ {\n    data = 1;\n};\nclass B@: A@ {\n    class A@: A@ {\n        data = 2;\n    };\n};\n",
    "class A@;\nclass B@ {\n    class A@;\n    class C: A@ {};\n};\n",
    "#define X_@ 1\n#ifdef X_@\nclass A@ {};\n#else\nclass A@: Missing {};\n#endif\n#undef X_@\n",
    "class A@ {\n    a = 1 + 2 * 3;\n    b = (1 - 2) / 4;\n    c = 0x1F;\n    d = .5;\n    e[] = {-1, 1 + 1, 0xff, \"\"};\n};\n",
];
const S3: &str = "using `typeName` on a constant is slower than using the type directly";
const S5: &str = "assignment to if can be replaced with select";
const S6: &str = "string search using `in` is faster than `find`";
const S11: &str = "Unneeded not in if";
const S22: &str = "Unnecessary `_this` in `call`";
const S7: &str = "using `select` where `parseNumber` is more appropriate";
const S18: &str = "Using `vehicle` to check if a unit is in a vehicle is inefficient";
const S20: &str = "Variable compared to static boolean";
const S24: &str = "Repeated calls to global marker updates";
const SQF: &[Mistake] = &[
    m("private _v@ = «typeName \"text\";\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = [1, «typeName {}, 2];\n", &[("static_typename", "notice", S3)]),
    m("«Hint \"text\";\n", &[("command_case", "notice", "`Hint` does not match the wiki's case")]),
    m("_v@ «setpos [1, 2];\n", &[("command_case", "notice", "`setpos` does not match the wiki's case")]),
    m("private _v@ = «if (_a) then {1} else {2};\n", &[("if_assign", "notice", S5)]),
    m("private _v@ = if (isNil \"_a\") then {1} else {2};\n", &[]),
    m("private _v@ = «_text find \"x\" > -1;\n", &[("find_in_str", "notice", "string search using `in` is faster than `find`")]),
    m("private _v@ = _text find \"x\" > 1;\n", &[]),
    m("private _v@ = «[0, 1] select (surfaceIsWater _a);\n", &[("select_parse_number", "notice", S7)]),
    m("private _v@ = «[1, 0] select (_a == _b);\n", &[("select_parse_number", "notice", S7)]),
    m("private _v@ = [1, 2] select (_a == _b);\n", &[]),
    m("private _v@ = «format [\"%1 %2\", 1];\n", &[("format_args", "error", "format string: undefined tokens [used \"%2\", passed 1]")]),
    m("private _v@ = «format [\"%1\", 1, 2];\n", &[("format_args", "error", "format string: unused args [used \"%1\", passed 2]")]),
    m("private _v@ = «format [\"99% free\"];\n", &[("format_args", "error", "format string: non-escaped \"%\" [at index 3]")]),
    m("private _v@ = format [\"%1%% of %2\", 1, 2];\n", &[]),
    m("«serverBroken;\n", &[("banned_commands", "error", "`serverBroken` is marked as a broken command on the wiki")]),
    m("if («!_a) then {hint \"1\"} else {hint \"2\"};\n", &[("if_not_else", "off notice", "Unneeded not in if")]),
    m("«ALL_CAPS_@ = 1;\nprivate _v@ = «ALL_CAPS;\n", &[("", "none", ""), ("caps_listed", "notice", "Variable should not be all caps: ALL_CAPS")]),
    m("if («vehicle player == player) then {hint \"1\"};\n", &[("in_vehicle_check", "notice", S18)]),
    m("if («_a != vehicle _a) then {hint \"1\"};\n", &[("in_vehicle_check", "notice", S18)]),
    m("if («_a == true) then {hint \"1\"};\n", &[("bool_static_comparison", "notice", S20)]),
    m("if («_a < 1 && «_a > 2) then {hint \"1\"};\n", &[("invalid_comparisons", "notice", "Impossible comparison"), ("invalid_comparisons", "notice", "Impossible comparison")]),
    m("if («_a > 1 && _b == 1 && «_a > 2) then {hint \"1\"};\n", &[("invalid_comparisons", "notice", "Overlapping comparison"), ("invalid_comparisons", "notice", "Overlapping comparison")]),
    m("if (_a > 1 || _a > 2) then {hint \"1\"};\n", &[]),
    m("«_this call _fnc;\n", &[("this_call", "off notice", "Unnecessary `_this` in `call`")]),
    m("call {\n    «_this = 1;\n};\n", &[("reasign_reserved_variable", "error", "Reassigning reserved variable `_this`")]),
    m("call {\n    params [\"_a\", [«\"_this\", 1]];\n};\n", &[("reasign_reserved_variable", "error", "Reassigning reserved variable `_this`")]),
    m("call {\n    private _saved = _this;\n    _this = 1;\n    call _fnc;\n    _this = _saved;\n};\n", &[]),
    m("\"m@\" «setMarkerText \"a\";\n\"m@\" setMarkerColor \"b\";\n", &[("marker_update_spam", "notice", S24)]),
    m("\"m@\" setMarkerTextLocal \"a\";\n\"m@\" setMarkerColor \"b\";\n", &[]),
    m("_a addEventHandler [«\"Unknown@\", {hint \"1\"}];\n", &[("event_unknown", "warning", "Using `addEventHandler` with unknown event `Unknown@`")]),
    m("_a addEventHandler [«\"Unlisted\", {hint \"1\"}];\n", &[("event_unlisted", "warning", "Using `addEventHandler` with unknown event `Unlisted`")]),
    m("_a addEventHandler [«\"MPHit\", {hint \"1\"}];\n", &[("", "warning", "Event `MPHit` was not expected for command `addEventHandler`")]),
    m("_a addEventHandler [\"Hit\", {hint \"1\"}];\n_a addMPEventHandler [\"MPKilled\", {}];\n", &[]),
    m("_a addEventHandler [«\"OpticsModeChanged\", {hint \"1\"}];\n", &[("", "2.10 error", "event `OpticsModeChanged` requires version 2.10")]),
    m("private _v@ = «getWaterLeakiness vehicle player;\n", &[("", "2.16 error", "command `getWaterLeakiness` requires version 2.16")]),
    m("private _v@ = [1, _a «getOrDefault [1, 2]];\n", &[("", "2.02 error", "command `getOrDefault` requires version 2.02")]),
    m("private _v@ = _a isEqualTo «soonAvailable;\n", &[("", "2.20 error", "command `soonAvailable` requires version 2.20")]),
    m("hint \"@\";\n_v@ setPos [1, 2, 3];\n", &[]),
    m("{\n    private _y = _x;\n    hint str _y;\n} forEach [1, 2, 3];\n", &[]),
    m("private _v@ = «typeName 123;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName true;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName [];\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName objNull;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName missionNamespace;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName configFile;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName scriptNull;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName grpNull;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = «typeName configNull;\n", &[("static_typename", "notice", S3)]),
    m("private _v@ = [typeName _a, typeName [1], typeName {hint \"1\"}, typeName player, typeName -1];\n", &[]),
    m("private _v@ = «DIAG_tickTime;\n", &[("command_case", "notice", "`DIAG_tickTime` does not match the wiki's case")]),
    m("_a «PUSHBACK 1;\n", &[("command_case", "notice", "`PUSHBACK` does not match the wiki's case")]),
    m("private _v@ = [1, {_a «Getvariable \"b\"}];\n", &[("command_case", "notice", "`Getvariable` does not match the wiki's case")]),
    m("_v@ = «isnil {_a};\n", &[("command_case", "notice", "`isnil` does not match the wiki's case")]),
    m("«SYSTEMCHAT str («ALIVE player);\n", &[("command_case", "notice", "`SYSTEMCHAT` does not match the wiki's case"), ("command_case", "notice", "`ALIVE` does not match the wiki's case")]),
    m("_v@ = «if (_a) then {\"x\"} else {\"y\"};\n", &[("if_assign", "notice", S5)]),
    m("call {\n    private _r = «if (_a && _b) then {true} else {_c};\n    _r\n};\n", &[("if_assign", "notice", S5)]),
    m("_v@ = if (_a) then {1} else {call _fnc};\n_w@ = if (_a) then {1; 2} else {3};\n_x@ = if (_a) then {1};\n_y@ = if (_a) then {} else {2};\n", &[]),
    m("if («\"text\" find \"e\" > -1) then {hint \"1\"};\n", &[("find_in_str", "notice", S6)]),
    m("private _v@ = [_a find 1 > -1, [1, 2] find \"x\" > -1, _a find \"x\" >= -1, _a find \"x\" > 0, _a find _b > -1, _a find \"x\" == -1];\n", &[]),
    m("private _v@ = [0, 1] select (alive _a);\n", &[]),
    m("private _v@ = «[0, 1] select (_a && _b);\n", &[("select_parse_number", "notice", S7)]),
    m("private _v@ = «[1, 0] select (_a < 3);\n", &[("select_parse_number", "notice", S7)]),
    m("private _v@ = «[0, 1] select (_a >= 3);\n", &[("select_parse_number", "notice", S7)]),
    m("private _v@ = «[0, 1] select (_a || _b);\n", &[("select_parse_number", "notice", S7)]),
    m("private _v@ = «[0, 1] select (_a != 1);\n", &[("select_parse_number", "notice", S7)]),
    m("private _v@ = [0, 2] select (_a < 3);\n", &[]),
    m("private _v@ = [0, 1, 2] select (_a < 3);\n", &[]),
    m("private _v@ = [0, 1] select _a;\n", &[]),
    m("private _v@ = [1, 1] select (_a < 3);\n", &[]),
    m("private _v@ = [0, 0] select (_a < 3);\n", &[]),
    m("private _v@ = [0, _x] select (_a < 3);\n", &[]),
    m("private _v@ = «format [];\n", &[("format_args", "error", "format string: empty array")]),
    m("private _v@ = «format [\"%1 %3\", 1, 2, 3];\n", &[("format_args", "error", "format string: skipped tokens [used \"%3\", but only 2 tokens]")]),
    m("private _v@ = «format [\"%2 %10\", 1];\n", &[("format_args", "error", "format string: undefined tokens [used \"%10\", passed 1]")]),
    m("private _v@ = «format [\"text\", 1];\n", &[("format_args", "error", "format string: unused args [used \"%0\", passed 1]")]),
    m("private _v@ = «format [\"%1 % %1\", 1];\n", &[("format_args", "error", "format string: non-escaped \"%\" [at index 4]")]),
    m("private _v@ = «format [\"%1%2%3\", 1, 2];\n", &[("format_args", "error", "format string: undefined tokens [used \"%3\", passed 2]")]),
    m("private _v@ = [format [\"%1 %1\", 1], format [\"%2%1\", 1, 2], format [\"done\"], format [\"%1%%\", 1], format [_a, 1], format _b, format [\"%1 %2 %3 %4 %5 %6 %7 %8 %9 %10\", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]];\n", &[]),
    m("private _v@ = [1, «serverBroken];\n", &[("banned_commands", "error", "`serverBroken` is marked as a broken command on the wiki")]),
    m("if («!alive _a) then {hint \"1\"} else {hint \"2\"};\n", &[("if_not_else", "off notice", S11)]),
    m("if (!_a) then {hint \"1\"};\nif (_a || !_b) then {hint \"1\"} else {hint \"2\"};\n", &[]),
    m("private _v@ = [«SOME_VAR, player, «X1];\n", &[("var_all_caps", "notice", "Variable should not be all caps: SOME_VAR"), ("var_all_caps", "notice", "Variable should not be all caps: X1")]),
    m("private _v@ = [_ALLCAPS, Some_VAR, SLX_XEH_COMPILE_NEW];\n", &[]),
    m("private _v@ = «vehicle _a == _a;\n", &[("in_vehicle_check", "notice", S18)]),
    m("private _v@ = [1, «player != vehicle player];\n", &[("in_vehicle_check", "notice", S18)]),
    m("private _v@ = [vehicle _a == _b, _a == vehicle _b, vehicle _a == vehicle _a];\n", &[]),
    m("private _v@ = «_a != false;\n", &[("bool_static_comparison", "notice", S20)]),
    m("if («true == _a) then {hint \"1\"};\n", &[("bool_static_comparison", "notice", S20)]),
    m("private _v@ = [alive _a == true, true == false];\n", &[]),
    m("private _v@ = _x call {«_this call _fnc@};\n", &[("this_call", "off notice", S22)]),
    m("private _v@ = [_this spawn _fnc, _thisB call _fnc, [_this] call _fnc];\n", &[]),
    m("if («_a >= 3 && «_a < 1) then {hint \"1\"};\n", &[("invalid_comparisons", "notice", "Impossible comparison"), ("invalid_comparisons", "notice", "Impossible comparison")]),
    m("if («_a == 3 && {«_a != 3}) then {hint \"1\"};\n", &[("invalid_comparisons", "notice", "Impossible comparison"), ("invalid_comparisons", "notice", "Impossible comparison")]),
    m("if («_a < 1 && «_a <= 2) then {hint \"1\"};\n", &[("invalid_comparisons", "notice", "Overlapping comparison"), ("invalid_comparisons", "notice", "Overlapping comparison")]),
    m("if (_c || «_a == 1 && «_a == 1) then {hint \"1\"};\n", &[("invalid_comparisons", "notice", "Overlapping comparison"), ("invalid_comparisons", "notice", "Overlapping comparison")]),
    m("if (_a < 3 && _a > 1) then {hint \"1\"};\nif (_a < 1 && _b > 2) then {hint \"1\"};\nif (_a < 1 || _a > 2) then {hint \"1\"};\nif (_a == 1 && _a != 2) then {hint \"1\"};\n", &[]),
    m("private _v@ = {\n    «_forEachIndex = 1;\n    private _y = 2;\n    «_exception = 2;\n};\n", &[("reasign_reserved_variable", "error", "Reassigning reserved variable `_forEachIndex`"), ("reasign_reserved_variable", "error", "Reassigning reserved variable `_exception`")]),
    m("private _v@ = {\n    private _saved = «_this;\n    _this = 1;\n    call _fnc;\n};\n", &[("reasign_reserved_variable", "error", "Reserved variable `_this` was never restored after being saved to `_saved`")]),
    m("private _v@ = {\n    private _saved = _this;\n    _this = 1;\n    «_saved = 2;\n    call _fnc;\n    _this = _saved;\n};\n", &[("reasign_reserved_variable", "error", "Holder variable `_saved` is overwritten before restoring `_this`")]),
    m("_x params [«\"_this\"];\n", &[("reasign_reserved_variable", "error", "Reassigning reserved variable `_this`")]),
    m("_m@ = \"m@\";\n_m@ «setMarkerText \"a\";\n_b = 1;\n_m@ «setMarkerColor \"b\";\n_m@ setMarkerPos [1, 2];\n", &[("marker_update_spam", "notice", S24), ("marker_update_spam", "notice", S24)]),
    m("\"ma@\" setMarkerText \"a\";\n\"mb@\" setMarkerColor \"b\";\n_n@ = \"x\";\n_n@ setMarkerText \"a\";\n_n@ = \"y\";\n_n@ setMarkerText \"a\";\n", &[]),
    m("player addMPEventHandler [«\"FiredMan\", {hint \"1\"}];\n", &[("", "warning", "Event `FiredMan` was not expected for command `addMPEventHandler`")]),
    m("private _v@ = _a addEventHandler [«\"Nonsense\", {hint \"1\"}];\n", &[("event_unknown", "warning", "Using `addEventHandler` with unknown event `Nonsense`")]),
];
const SQF_FATAL: &[Mistake] = &[
    m("#include \"«missing@.inc.sqf\"\n", &[("", "error", "include not found")]),
    m("#«nothing@ 1\n", &[("", "error", "unknown directive")]),
    m("#define F_@(a) a\nhint F_@(1);\nhint «F_@(1,2);\n", &[("", "error", "function call with incorrect number of arguments")]),
];
/// Lints of scripts that can be changed: (name, usual level, lowest, enabled)
const SETTINGS: &[(&str, u8, u8, bool)] = &[("static_typename", 0, 0, true), ("command_case", 0, 0, true), ("if_assign", 0, 0, true), ("find_in_str", 0, 0, true), ("select_parse_number", 0, 0, true), ("format_args", 2, 1, true), ("banned_commands", 2, 1, true), ("if_not_else", 0, 0, false), ("var_all_caps", 0, 0, true), ("in_vehicle_check", 0, 0, true), ("bool_static_comparison", 0, 0, true), ("invalid_comparisons", 0, 0, true), ("this_call", 0, 0, false), ("marker_update_spam", 0, 0, true), ("event_unknown", 1, 1, true)];
const LEVEL: [&str; 3] = ["notice", "warning", "error"];
const SEVERITY: [&str; 3] = ["Help", "Warning", "Error"];

type Setting = (bool, Option<u8>);
/// (line, column, level, title, file)
type Line = (usize, usize, String, String, String);
struct Text { s: String, want: Vec<Line>, path: String }
impl Text {
    fn new(path: &str) -> Self { Self { s: String::new(), want: vec![], path: path.into() } }
    fn put(&mut self, t: &str) { self.s.push_str(t); }
    fn put_marked(&mut self, t: &str, told: &[Told], n: u64, set: &BTreeMap<&str, Setting>, required: (u8, u8), live: bool) {
        let t = t.replace('@', &n.to_string());
        let mut told = told.iter();
        for (i, part) in t.split('«').enumerate() {
            if i > 0 {
                let (lint, level, title) = told.next().expect("as many as marks");
                let (line, col) = (self.s.matches('\n').count() + 1, self.s[self.s.rfind('\n').map_or(0, |x| x + 1)..].chars().count() + 1);
                let (off, level) = level.strip_prefix("off ").map_or((false, *level), |l| (true, l));
                let mut level = level.to_string();
                let mut on = !off && level != "none";
                if let Some((v, l)) = level.clone().split_once(' ') {
                    let (a, b) = v.split_once('.').expect("version");
                    on = required < (a.parse().expect("major"), b.parse().expect("minor"));
                    level = l.into();
                }
                if let Some((e, s)) = set.get(lint).or_else(|| set.get(match *lint { "event_unlisted" => "event_unknown", "caps_listed" => "var_all_caps", _ => "" })) {
                    on = *e;
                    if let Some(s) = s { level = LEVEL[*s as usize].into(); }
                }
                if on && live { self.want.push((line, col, level, title.replace('@', &n.to_string()), self.path.clone())); }
            }
            self.s.push_str(part);
        }
    }
    /// Something between two snippets.
    fn filler(&mut self, n: u64) {
        let t = match gen(8) { 0 => "// ünïcode, «quotes» \"\n".to_string(), 1 => "/* a\n   longer\n   note */\n".into(), 2 => format!("#define LONG_{n} 1 \\\n    2 \\\n    3\n"), 3 => "\n\n".into(), 4 => format!("#define UNUSED_{n} value\n"), _ => String::new() };
        self.put(&t);
    }
}

fn p37_check() -> Verdict {
    let mut f = Files::new();
    let mut set: BTreeMap<&str, Setting> = BTreeMap::new();
    let mut toml = "name = \"Test\"\nprefix = \"tst\"\nmainprefix = \"z\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n".to_string();
    let mut cfg_lints = String::new();
    if genp(1, 3) {
        let s = gen(2) as u8 + 1; // warning or error
        match gen(3) {
            0 => { set.insert("external_parent_case", (false, None)); cfg_lints = "external_parent_case = false\n".into(); }
            1 => { set.insert("external_parent_case", (true, Some(s))); cfg_lints = format!("external_parent_case = \"{}\"\n", SEVERITY[s as usize]); }
            _ => { set.insert("external_parent_case", (true, Some(0))); cfg_lints = "external_parent_case = { severity = \"Help\" }\n".into(); }
        }
    }
    if genp(1, 4) {
        let s = gen(2) as u8 + 1;
        match gen(2) {
            0 => { set.insert("magwell_missing_magazine", (false, None)); cfg_lints.push_str("magwell_missing_magazine.enabled = false\n"); }
            _ => { set.insert("magwell_missing_magazine", (true, Some(s))); cfg_lints.push_str(&format!("magwell_missing_magazine = \"{}\"\n", SEVERITY[s as usize])); }
        }
    }
    let mut lints = String::new();
    let mut refused = String::new();
    if genp(1, 2) {
        for (name, usual, low, on) in SETTINGS {
            if !genp(1, 4) { continue; }
            match gen(4) {
                0 => { let e = genp(1, 2); lints.push_str(&format!("{name} = {e}\n")); set.insert(name, (e, None)); }
                1 => { let s = low + gen(u64::from(3 - low)) as u8; lints.push_str(&format!("{name} = \"{}\"\n", SEVERITY[s as usize])); set.insert(name, (*on, Some(s))); }
                2 => { let s = low + gen(u64::from(3 - low)) as u8; let e = genp(1, 2); lints.push_str(&format!("{name} = {{ enabled = {e}, severity = \"{}\" }}\n", SEVERITY[s as usize])); set.insert(name, (e, Some(s))); }
                _ => {
                    if *name == "var_all_caps" { lints.push_str("var_all_caps = { options.ignore = [\"ALL_*\"] }\n"); set.insert("caps_listed", (false, None)); }
                    else if *name == "event_unknown" { lints.push_str("event_unknown = { options.ignore = [\"addEventHandler\", \"Unlisted\"] }\n"); set.insert("event_unlisted", (false, None)); }
                    else if genp(1, 12) && *low > 0 { lints.push_str(&format!("{name} = \"Help\"\n")); refused = format!("Lint `{name}` severity is lower than minimum severity"); set.insert(name, (true, None)); }
                    let _ = usual;
                }
            }
        }
        if refused.is_empty() && genp(1, 40) { lints.push_str("required_version = false\n"); refused = "Lint `required_version` cannot be disabled".into(); }
    }
    if !cfg_lints.is_empty() { toml.push_str(&format!("[lints.config]\n{cfg_lints}")); }
    if !lints.is_empty() { toml.push_str(&format!("[lints.sqf]\n{lints}")); }
    if genp(1, 30) && refused.is_empty() { toml.push_str("[lints.stringtables]\nsorted = \"Help\"\n"); refused = "Lint `sorted` severity is lower than minimum severity".into(); }
    f.insert(".hemtt/project.toml".into(), toml.clone().into_bytes());

    let mut n = 0u64;
    let mut next = || { n += 1; n };
    let (mut want_config, mut want_sqf): (Vec<Line>, Vec<Line>) = (vec![], vec![]);
    let clean: Vec<&Mistake> = SQF.iter().filter(|m| m.told.is_empty()).collect();
    let rate = gen(3); // clean, some, many
    for a in 0..1 + gen(3) {
        let dir = format!("addons/a{a}");
        f.insert(format!("{dir}/$PBOPREFIX$"), format!("z\\tst\\addons\\a{a}\n").into_bytes());
        let required: (u8, u8) = [(2u8, 18u8), (2, 10), (2, 16), (1, 0), (2, 2), (0, 0)][gen(6) as usize];
        let mut t = Text::new(&format!("/{dir}/config.cpp"));
        let crlf = genp(1, 8);
        t.put(&format!("class CfgPatches {{\n    class tst_a{a} {{\n        units[] = {{}};\n        {}    }};\n}};\n", if required.0 == 0 { String::new() } else { format!("requiredVersion = {}.{:02};\n", required.0, required.1) }));
        let mut done = vec![];
        let (mut fatal, mut wells) = (false, false);
        for _ in 0..gen(4) {
            t.filler(next());
            let at = next();
            if rate == 0 || !genp(1, if rate == 1 { 6 } else { 2 }) || fatal { t.put_marked(pick(CLEAN), &[], at, &set, required, false); continue; }
            let deadly = genp(1, 12);
            let i = gen(if deadly { FATAL.len() } else { CONFIG.len() } as u64) as usize;
            let mut x = if deadly { &FATAL[i] } else { &CONFIG[i] };
            if x.text.contains("CfgMagazineWells") { if wells { x = &CONFIG[0]; } wells = true; }
            match gen(6) {
                0 if !x.text.contains("#else") => { t.put(&format!("#ifdef NOT_DEFINED_{at}\n")); t.put_marked(x.text, x.told, at, &set, required, false); t.put("#endif\n"); continue; }
                0 | 1 => { t.put(&format!("#ifndef NOT_DEFINED_{at}\n")); t.put_marked(x.text, x.told, at, &set, required, true); t.put("#endif\n"); }
                2 => {
                    let mut p = Text::new(&format!("/{dir}/part{at}.hpp"));
                    if genp(1, 2) { p.filler(next()); }
                    p.put_marked(x.text, x.told, at, &set, required, true);
                    t.put(&format!("#include \"part{at}.hpp\"\n"));
                    f.insert(p.path[1..].to_string(), p.s.into_bytes());
                    done.extend(p.want.drain(..).map(|l| (deadly, l)));
                }
                _ => t.put_marked(x.text, x.told, at, &set, required, true),
            }
            done.extend(t.want.drain(..).map(|l| (deadly, l)));
            fatal |= deadly;
        }
        if fatal { done.retain(|(d, _)| *d); }
        want_config.extend(done.into_iter().map(|x| x.1));
        if crlf { t.s = t.s.replace('\n', "\r\n"); }
        f.insert(format!("{dir}/config.cpp"), t.s.into_bytes());
        for k in 0..gen(4) {
            let mut t = Text::new(&format!("/{dir}/functions/fn_{k}.sqf"));
            let (mut done, mut fatal) = (vec![], false);
            let mut newest: Option<(&str, Line)> = None;
            for _ in 0..1 + gen(4) {
                t.filler(next());
                let at = next();
                if fatal { break; }
                let deadly = rate > 0 && genp(1, 25);
                let i = gen(if deadly { SQF_FATAL.len() } else { SQF.len() } as u64) as usize;
                let mut x = if deadly { &SQF_FATAL[i] } else { &SQF[i] };
                if !deadly && !x.told.is_empty() && (rate == 0 || rate == 1 && !genp(1, 3)) { x = pick(&clean); }
                let code = x.text.starts_with('#');
                let mut deep = if code { 0 } else { gen(3) };
                let how = gen(6);
                if how == 1 { deep = 0; }
                match how {
                    0 => { t.put(&format!("#ifdef NOT_DEFINED_{at}\n")); t.put_marked(x.text, x.told, at, &set, required, false); t.put("#endif\n"); continue; }
                    1 if !deadly => {
                        let mut p = Text::new(&format!("/{dir}/functions/part{at}.inc.sqf"));
                        if genp(1, 2) { p.filler(next()); }
                        p.put_marked(x.text, x.told, at, &set, required, true);
                        t.put(&format!("#include \"part{at}.inc.sqf\"\n"));
                        f.insert(p.path[1..].to_string(), p.s.into_bytes());
                        done.extend(p.want.drain(..).map(|l| (deadly, l)));
                    }
                    _ => {
                        for _ in 0..deep { t.put(pick(&["call {\n", "if (_c) then {\n", "try {\n"])); }
                        t.put_marked(x.text, x.told, at, &set, required, true);
                        for _ in 0..deep { t.put("};\n"); }
                    }
                }
                    done.extend(t.want.drain(..).map(|l| (deadly, l)));
                fatal |= deadly;
                // of the commands of a block only the newest is told, and that once
                if deep == 0 && x.told.iter().any(|t| t.2.starts_with("command ") && t.2.contains("requires")) {
                    if let Some((_, l)) = done.pop_if(|(_, l)| l.3.starts_with("command ")) {
                        let v = x.told[0].1;
                        if newest.as_ref().is_none_or(|n| n.0 < v) { newest = Some((v, l)); }
                    }
                }
            }
            done.extend(newest.map(|(_, l)| (false, l)));
            if fatal { done.retain(|(d, _)| *d); }
            want_sqf.extend(done.into_iter().map(|x| x.1));
            let mut s = t.s;
            if genp(1, 4) {
                s = s.trim_end().to_string();
                if genp(1, 2) && s.ends_with(';') { s.pop(); }
            }
            if genp(1, 8) { s = s.replace('\n', "\r\n"); }
            f.insert(format!("{dir}/functions/fn_{k}.sqf"), s.into_bytes());
        }
    }
    let wrong = |v: &[Line]| v.iter().any(|l| l.2 == "error");
    let mut want = want_config.clone();
    if !wrong(&want_config) { want.extend(want_sqf); }
    let mut fails = wrong(&want);
    if !refused.is_empty() { want.clear(); fails = true; }
    want.sort();

    let d = Dir::new();
    lay(&d, &f);
    let c = pick(&["check", "check", "dev", "build"]);
    let what = "checking a project";
    let pl = cmd(&words(&[c]));
    let list = |d: &Dir| -> (String, Vec<Line>) {
        let _g = sim::hold();
        let s = std::fs::read_to_string(format!("{}/project/.hemttout/ci_annotations.txt", d.path)).unwrap_or_default();
        let mut v: Vec<Line> = s.lines().map(|l| { let p: Vec<&str> = l.split("||").collect(); if p.len() == 8 { (p[0].parse().unwrap_or(0), p[2].parse().unwrap_or(0), p[4].to_string(), p[5].to_string(), p[7].to_string()) } else { (0, 0, l.to_string(), String::new(), String::new()) } }).collect();
        v.sort();
        (s, v)
    };
    let e = calm(&d, &pl, what)?;
    let (raw, got) = list(&d);
    let show = || f.iter().filter(|(n, _)| !n.contains("PBOPREFIX")).map(|(n, b)| format!("--- {n}\n{}\n", String::from_utf8_lossy(b))).collect::<String>();
    for w in &want {
        if got.iter().filter(|g| *g == w).count() >= want.iter().filter(|x| *x == w).count() { continue; }
        let near = got.iter().find(|g| g.3 == w.3 && !want.contains(g));
        return match near {
            Some(g) if g.2 == w.2 => bad(format!("a mistake is reported in another place: {}", gist(&w.3)), format!("{g:?} instead of {w:?}\n{}", show())),
            Some(g) => bad(format!("a mistake is reported with another level: {}", gist(&w.3)), format!("{g:?} instead of {w:?}\n{}", show())),
            None => bad(format!("a mistake is not reported: {}", gist(&w.3)), format!("{w:?}\nreported: {got:?}\n{}\n{}", tail(&e), show())),
        };
    }
    for g in &got {
        if want.iter().filter(|w| *w == g).count() >= got.iter().filter(|x| *x == g).count() { continue; }
        let twice = if want.contains(g) { "a mistake is reported more than once" } else { "something is reported that is no mistake" };
        return bad(format!("{twice}: {}", gist(&g.3)), format!("{g:?}\n{}", show()));
    }
    ensure!((e.status == Some(0)) != fails, if fails { "checking a project with an error reports success" } else { "checking a project without an error fails" }, "{want:?} {refused} {}\n{}", tail(&e), show());
    if !refused.is_empty() { ensure!(format!("{}{}", e.out, e.err).contains(&refused), "a setting of a lint that is not possible is not explained", "{refused}\n{}", tail(&e)); }

    // again, in another order
    let e1 = calm(&d, &cmd(&words(&[c])), what)?;
    let (raw1, _) = list(&d);
    ensure!(raw1 == raw && e1.status == e.status, "a second check of the same project reports something else", "{raw}\n{raw1}\n{}", show());

    // trouble
    let mut pt = pl.clone();
    let tr = trouble(&mut pt, &e.counts, 4000);
    let e2 = run(&d.path, &pt);
    sound(&e2, what)?;
    if e2.status == Some(0) && !blind(&pt) {
        ensure!(!fails, "checking a project with an error while reading fails reports success", "{tr} {want:?}\n{}", show());
        // (the place may be lost with the text)
        let less = |v: &[Line]| { let mut v: Vec<_> = v.iter().map(|l| (l.2.clone(), l.3.clone(), l.4.clone())).collect(); v.sort(); v };
        let (raw2, got2) = list(&d);
        ensure!(less(&got2) == less(&got), "checking a project while reading fails hides a mistake", "{tr}\n{raw}\n{raw2}");
    }
    let key = f.iter().fold(hash_str(&format!("{tr}{c}")), |h, (n, b)| mix(mix(h, hash_str(n)), hash_bytes(5, b)));
    Ok(Info { nontrivial: !want.is_empty() || !refused.is_empty(), key, sample: Some(format!("{c}: {} files, {} mistakes reported, {tr} -> {:?}", f.len(), want.len(), e2.status)) })
}
/// Without numbers, so that the same trouble has the same name.
fn gist(t: &str) -> String { t.chars().filter(|c| !c.is_ascii_digit()).collect() }

pub fn props() -> Vec<Property> {
    const REAL: &[&str] = &["the hemtt command line: check, dev and build, modules, executor, report", "hemtt-preprocessor, hemtt-config, hemtt-sqf with all lints", "hemtt-common, hemtt-workspace, vfs above the libc calls"];
    const STUB: &[&str] = &["the data of the Arma 3 wiki (a fixed selection of commands and events)", "the file system below the libc calls (real files in a scratch folder; errors, order and short transfers injected)", "thread scheduling, clocks, randomness"];
    vec![Property { id: "P37", rule: "distinct triples of project, command and trouble", real: REAL, stub: STUB, level: "fault_enumeration",
        assumptions: &["a file that can not be examined (a failing stat) counts as absent", "mistakes are those of the catalogue, one per kind of diagnostic, embedded in generated files"],
        scenarios: vec![Scenario { patience: 200, ..Scenario::new("check", 1500, 20_000, p37_check) }] }]
}
