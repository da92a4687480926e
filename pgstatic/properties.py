"""The properties: text (written to properties.jsonl) and what decides each of them.

``select`` entries are ``module-glob`` or ``module-glob :: name-glob[, name-glob...]`` over
the obligations of the confirmed table (module relative to the pygerber package); ``rules``
are names of the structural analyses in rules.py.
"""
from __future__ import annotations

import fnmatch
from dataclasses import dataclass, field
from typing import Dict, List


@dataclass
class Prop:
    id: str
    title: str
    statement: str
    over: List[str]
    text: str
    why: str
    files: List[str]
    mech: List[tuple]
    select: List[str]
    rules: List[str] = field(default_factory=list)
    state: List[tuple] = field(default_factory=list)
    observe: List[str] = field(default_factory=list)
    lens: List[str] = field(default_factory=list)  # what of all other entry points belongs to the property

    def matches(self, oid: str, module: str) -> bool:
        kind, name = oid.split(" ", 1)
        mod = module[len("pygerber."):] if module.startswith("pygerber.") else module
        for s in self.select:
            m, _, n = s.partition(" :: ")
            if not fnmatch.fnmatchcase(mod, m.strip()):
                continue
            if not n:
                return True
            for g in n.split(","):
                g = g.strip()
                if " " in g:
                    k, g = g.split(" ", 1)
                    if k != kind:
                        continue
                if fnmatch.fnmatchcase(name, g):
                    return True
        return False

    def json(self) -> dict:
        return {
            "id": self.id, "title": self.title, "statement": self.statement,
            "quantifier": {"over": self.over, "text": self.text},
            "why_tests_cant": self.why,
            "anchors": {
                "files": ["src/pygerber/" + f for f in self.files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in self.state],
                "mechanism": [{"name": a, "where": "src/pygerber/" + b} for a, b in self.mech],
                "observe_at": self.observe,
                "hook_needed": None,
            },
        }


PROPS: List[Prop] = []


def P(*a, **k):
    PROPS.append(Prop(*a, **k))


NODES = "gerber.ast.nodes.*"

P("C01", "Traversal reaches every AST node's own handler once, in source order",
  "Visiting any syntax tree calls, for every node, exactly the handler belonging to that kind of node "
  "(and those of the more general kinds it belongs to), then visits all of its children exactly once and in the "
  "order they were written. A custom visitor that overrides one handler therefore sees "
  "every node of that kind and no other, and its replacement node is what the caller gets back.",
  ["inputs", "programs"],
  "all syntax trees (any nesting of files, macros, blocks, step-repeats, expressions) and all visitors overriding any subset of handlers",
  "Tests traverse a fixed set of asset files with a few visitors; a child skipped or visited twice for one node kind, or a handler wired to a "
  "sibling kind, shows only for trees holding that kind under a visitor that looks at it.",
  ["gerber/ast/ast_visitor.py", "gerber/ast/nodes/"],
  [("Node.visit / get_visitor_callback_function double dispatch", "gerber/ast/nodes/base.py"),
   ("AstVisitor default handlers recurse into children", "gerber/ast/ast_visitor.py")],
  ["gerber.ast.ast_visitor", NODES + " :: *.visit, *.get_visitor_callback_function"],
  rules=["dispatch"],
  observe=["AstVisitor subclasses", "Node.visit"])

P("C02", "Parsing yields one node per command with the written values, in order",
  "For every Gerber text the parser accepts, the resulting tree has, in source order, one node of the matching kind per "
  "command, carrying exactly the numbers, names, enumerated options and optional parts that were written, with the "
  "source span they came from. Text that is not a valid command is rejected, or in the resilient mode kept as an "
  "invalid-text node, never silently read as another command.",
  ["inputs", "configurations"],
  "all source texts and all parser options (strictness, syntax switches, optimisation level)",
  "The grammar is a product of ~100 alternatives with order, optional parts and separators; tests parse sample strings per command.",
  ["gerber/parser/", "gerber/ast/nodes/"],
  [("Grammar builds a pyparsing element per command with result names", "gerber/parser/pyparsing/grammar.py"),
   ("Parser / parse entry points choose resilient or strict grammar", "gerber/parser/pyparsing/parser.py")],
  ["gerber.parser*", "gerber.ast.nodes.* :: fields *, enum *, const *, *.__len__", "gerber.ast.nodes.enums", "gerber.ast.nodes.types",
   "gerber.ast.nodes.aperture.SR_open", "gerber.ast.nodes.attribute.TF", "gerber.ast.nodes.base", "gerber.ast.nodes.model"],
  rules=["forwards", "grammar_nodes"],
  observe=["pygerber.gerber.parser.parse"])

P("C03", "Formatting writes each command back with its own code, fields and values",
  "Formatting any syntax tree writes, for every node and in order, exactly that command's code letters, all of the parts that are present in "
  "the node and only those, each with the node's own value, in the order the Gerber grammar requires, so that "
  "the text parses back to the same commands.",
  ["inputs", "configurations"],
  "all syntax trees, all combinations of optional parts, all formatting options",
  "Tests compare formatted samples; a field printed under the wrong condition or with its neighbour's value shows only for trees in which the two differ.",
  ["gerber/formatter/formatter.py", "gerber/ast/nodes/"],
  [("Formatter on_* handlers write through one command context", "gerber/formatter/formatter.py")],
  ["gerber.formatter.formatter", "gerber.formatter", "gerber.ast.nodes.enums", "gerber.ast.nodes.attribute.* :: *.attribute_name",
   "gerber.ast.nodes.math.constant :: method *"],
  rules=["formatter_total", "attribute_names"],
  observe=["pygerber.gerber.formatter.format / formats", "GerberFile.format"])

P("C04", "Each formatting option changes only the layout it documents, everywhere",
  "Every formatting option (indentation by context, line endings, line splitting, empty lines around commands, explicit parentheses, "
  "number trimming, removal of deprecated G54/G55, whitespace stripping) takes effect for every command it covers and for no other "
  "command, the presets select the documented options, and after any nested context closes the indentation is "
  "what it was before it opened.",
  ["inputs", "configurations"],
  "all combinations of option values over all syntax trees",
  "The option space is a product of more than fifteen options; tests fix one option at a time on one sample.",
  ["gerber/formatter/formatter.py", "gerber/formatter/options.py", "gerber/formatter/presets.py", "gerber/formatter/enums.py", "gerber/formatter/__init__.py"],
  [("Options model and defaults", "gerber/formatter/options.py"), ("indent / line end / empty line helpers", "gerber/formatter/formatter.py")],
  ["gerber.formatter*"],
  rules=["option_used"],
  observe=["formatter Options"])

P("C05", "Modal state follows the last command that set it, in stream order",
  "After processing any prefix of a command stream, units, coordinate format and notation, interpolation mode, arc mode, region mode, "
  "polarity, mirroring, rotation, scaling, current point, current aperture, defined apertures and macros, image properties and the "
  "file, aperture and object attribute dictionaries equal what the most recent command setting each of them says, and no command "
  "changes state it does not name. Deleting attributes removes exactly the named ones, or all when none is named.",
  ["histories", "inputs"],
  "all command histories, including redefinition and interleaving of modes",
  "Tests check single commands from the initial state; cross-talk between two pieces of state needs a history that sets both.",
  ["gerber/ast/state_tracking_visitor.py", "gerber/ast/__init__.py"],
  [("StateTrackingVisitor handlers are the only writers of State", "gerber/ast/state_tracking_visitor.py")],
  ["gerber.ast.state_tracking_visitor", "gerber.ast", "gerber.ast.nodes.enums", "gerber.ast.nodes.attribute.*", "gerber.ast.errors", "gerber.ast.ast_visitor"],
  rules=["state_writers"],
  state=[("State", "modal graphics state", "src/pygerber/gerber/ast/state_tracking_visitor.py")],
  observe=["get_final_state", "StateTrackingVisitor.state"])

P("C06", "D01, D02 and D03 act per current mode and move the current point",
  "Every draw operation is dispatched by the interpolation mode in force (line, clockwise or counter-clockwise arc, single or multi quadrant) and "
  "by whether a region is open; a move never draws; a flash is dispatched by the kind of the selected aperture, and is an error when none is selected or it is undefined. "
  "A coordinate that is omitted keeps its previous value, and after each operation the current point equals the operation's end point.",
  ["histories", "inputs"],
  "all histories of operations, modes and aperture selections, with any subset of X, Y, I, J present",
  "The dispatch table is mode x arc mode x region x aperture kind x present coordinates; tests visit a few cells.",
  ["gerber/ast/state_tracking_visitor.py"],
  [("on_d01/on_d02/on_d03 dispatch handlers", "gerber/ast/state_tracking_visitor.py")],
  ["gerber.ast.state_tracking_visitor :: StateTrackingVisitor.*, fields StateTrackingVisitor, PlotMode, ArcInterpolation, State*, ApertureStorage*",
   "gerber.ast.nodes.d_codes.*", "gerber.ast.nodes.other.*", "gerber.ast.errors", "gerber.ast.ast_visitor :: *.on_d0*, *.on_g0*, *.on_g7*, *.on_g3*, *.on_coordinate*", "gerber.ast.nodes.enums"],
  observe=["StateTrackingVisitor.on_draw_* / on_flash_* / on_in_region_*"])

P("C07", "Packed coordinates decode by format and zero mode, and encoding inverts it",
  "For every declared coordinate format (digits, zero omission, absolute or incremental), a packed coordinate decodes to the decimal number obtained by "
  "restoring the omitted zeros on the declared side, keeping the sign and placing the decimal point as declared for that "
  "axis. Encoding a representable value and decoding it again gives the value back, and too long or too short digit strings are rejected.",
  ["inputs", "configurations"],
  "all digit strings and signs, all format declarations, per axis",
  "Digit counts x zero modes x sign x axis is far beyond the samples in tests.",
  ["gerber/ast/state_tracking_visitor.py", "gerber/ast/nodes/other/", "builder/gerber.py"],
  [("CoordinateFormat.unpack_* / pack_*", "gerber/ast/state_tracking_visitor.py")],
  ["gerber.ast.state_tracking_visitor :: CoordinateFormat*, StateTrackingVisitor.coordinate_*, StateTrackingVisitor.on_fs, StateTrackingVisitor.on_coordinate*, StateTrackingVisitor.is_negative",
   "gerber.ast.nodes.other.*", "gerber.ast.nodes.enums :: *Coordinate*, *Zeros*, AxisCorrespondence*, *Notation*", "gerber.ast.nodes.properties.FS",
   "gerber.ast.nodes.types", "gerber.ast.errors :: Packed*, CoordinateFormat*"],
  observe=["CoordinateFormat", "compiled command coordinates"])

P("C08", "Macro expressions evaluate by arithmetic precedence over current variables",
  "Evaluating any macro expression gives the value that ordinary arithmetic gives for the written operators, operand order and "
  "parentheses, with variables taking the values bound by the aperture definition's parameters or the latest assignment; "
  "an assignment changes only its own variable and evaluation never alters the expression.",
  ["inputs"],
  "all expression trees and all variable bindings",
  "Expression trees are unbounded; tests evaluate a few, mostly with commutative operators or equal operands.",
  ["gerber/ast/expression_eval_visitor.py", "gerber/compiler/compiler.py", "gerber/ast/nodes/math/", "gerber/parser/pyparsing/grammar.py"],
  [("ExpressionEvalVisitor", "gerber/ast/expression_eval_visitor.py"), ("MacroEvalVisitor binds $1.. and runs assignments", "gerber/compiler/compiler.py")],
  ["gerber.ast.expression_eval_visitor", "gerber.ast.nodes.math.*", "gerber.compiler.compiler :: MacroEvalVisitor*, Compiler.on_flash_macro, Compiler.on_ad_macro",
   "gerber.parser.pyparsing.grammar :: Grammar.expression, Grammar.assignment, Grammar.variable, Grammar.constant, Grammar.macro, Grammar.double, Grammar.build*"],
  observe=["ExpressionEvalVisitor.evaluate", "compiled macro shapes"])

P("C09", "Compiled draws and flashes have the geometry, polarity and place stated",
  "For every draw, flash and region contour, the compiled drawing commands reproduce its start, end and centre points, the width of the aperture in use, "
  "the aperture's size, shape, rotation and hole, and the direction of arcs; they are placed after applying the "
  "current mirroring, rotation and scaling, and are negative exactly when clear polarity is in force.",
  ["inputs", "histories"],
  "all operations under all aperture kinds and modal transforms",
  "Tests compile sample files and mostly check that it succeeds; a swapped dimension or wrong sign needs asymmetrical inputs.",
  ["gerber/compiler/compiler.py", "vm/commands/shape.py"],
  [("Compiler on_draw_* / on_flash_* / on_in_region_* emit shapes", "gerber/compiler/compiler.py")],
  ["gerber.compiler.compiler :: Compiler.*, fields Compiler, CommandBuffer*", "vm.commands.shape", "vm.types.matrix", "gerber.ast.state_tracking_visitor :: Transform*", "gerber.ast.state_tracking_visitor", "vm.types.vector", "vm.types.layer_id", "vm.commands.*", "gerber.ast.nodes.aperture.*"],
  observe=["pygerber.gerber.compiler.compile", "RVMC.commands"])

P("C10", "Compiled layers exist before use, are complete, and end with the main image",
  "For every program the compiled command list opens and closes layers in matching pairs, defines every aperture, block and "
  "step-repeat layer before the first command that pastes it, contains all drawing commands issued into each layer in "
  "order, and finishes with the main image; block apertures and step-repeats are pasted at every required position with the transforms in force.",
  ["inputs", "histories"],
  "all programs with any nesting of block apertures, macros and step-repeats",
  "Layer dependency graphs are unbounded; tests compile a handful of nestings.",
  ["gerber/compiler/compiler.py", "gerber/compiler/errors.py", "vm/rvmc.py"],
  [("buffer stack and submit order", "gerber/compiler/compiler.py")],
  ["gerber.compiler*", "gerber.ast.nodes.aperture.SR_open", "vm.rvmc", "vm.commands.paste", "vm.commands.layer", "vm.types.layer_id", "vm.types.matrix", "vm.types.vector", "vm.commands.*", "gerber.ast.state_tracking_visitor :: Transform*, StateTrackingVisitor.on_ab*, StateTrackingVisitor.on_sr*, StateTrackingVisitor.on_flash*, StateTrackingVisitor.on_d03, ApertureStorage*", "gerber.ast.nodes.aperture.*"],
  observe=["RVMC.commands"])

P("C11", "Macro primitives become the shapes their parameters describe",
  "Each macro primitive (circle, vector line, centre line, outline, polygon, moire, thermal) compiles to shapes with exactly the evaluated exposure, sizes, positions, vertex "
  "count, gaps and rotation about the macro origin of its own parameters, in the order the primitives are written.",
  ["inputs"],
  "all macro bodies and parameter values",
  "Every primitive has up to nine numeric parameters; tests sample one or two assignments in which several are equal or zero.",
  ["gerber/compiler/compiler.py", "gerber/ast/nodes/primitives/"],
  [("MacroEvalVisitor.on_code_*", "gerber/compiler/compiler.py")],
  ["gerber.compiler.compiler :: MacroEvalVisitor*, Compiler.on_flash_macro, CommandBuffer*", "gerber.ast.nodes.primitives.*", "vm.commands.shape",
   "gerber.parser.pyparsing.grammar :: Grammar.primitive*, Grammar.macro", "vm.types.matrix", "vm.types.vector", "vm.commands.*", "gerber.ast.expression_eval_visitor", "gerber.ast.nodes.math.*"],
  observe=["RVMC.commands of macro layers"])

P("C12", "Shape constructors and transforms produce the exact outline and bounds",
  "Every shape constructor (line, arc, circle, rectangle, obround, regular polygon, ring, connected points) returns a closed outline with the requested dimensions, position "
  "and orientation; transforming a shape transforms every point of it, and its outer box encloses the whole outline including arc bulges.",
  ["inputs"],
  "all dimensions, positions, angles and affine transforms",
  "Continuous parameters; tests use a few symmetric values.",
  ["vm/commands/shape.py", "vm/commands/shape_segments/"],
  [("Shape.new_*", "vm/commands/shape.py"), ("Arc / Line outer_box and transform", "vm/commands/shape_segments/arc.py")],
  ["vm.commands.*", "vm.types.vector", "vm.types.box :: Box*", "vm.types.matrix", "vm.types.box"],
  observe=["Shape", "rendered geometry"])

P("C13", "Vector, matrix and box operations obey their algebra",
  "Vector arithmetic, comparison, length, normalisation and angles, 3x3 matrix products and transform constructors, and box union, translation, size and "
  "centre compute componentwise exactly the mathematical operation they name, for scalars and vectors alike, without changing operands.",
  ["inputs"],
  "all operand values and operand types",
  "Tests check a few numbers; a component mix-up is invisible when components coincide.",
  ["vm/types/vector.py", "vm/types/matrix.py", "vm/types/box.py", "vm/types/layer_id.py"],
  [("operator methods", "vm/types/vector.py"), ("Matrix3x3.__matmul__, new_*", "vm/types/matrix.py"), ("Box operators", "vm/types/box.py")],
  ["vm.types.vector", "vm.types.matrix", "vm.types.box", "vm.types.layer_id", "gerber.ast.state_tracking_visitor :: Transform*"],
  observe=["Vector", "Matrix3x3", "Box"])

P("C14", "The virtual machine keeps layers isolated, bounded and correctly stacked",
  "While executing any command list, each drawing command affects exactly the innermost open layer, closing a layer restores the enclosing one, an explicitly sized layer takes its "
  "given box and an auto-sized one the union of what was drawn, a paste copies the named finished layer, and the result is the main layer. Pasting unknown layers, "
  "redefining a layer or drawing with none open raise the documented errors.",
  ["inputs", "histories"],
  "all command lists, any nesting of explicit and auto-sized layers",
  "Nesting and order of layers is unbounded; tests use one or two levels.",
  ["vm/vm.py", "vm/command_visitor.py", "vm/__init__.py"],
  [("VirtualMachine layer stack and eager/deferred handlers", "vm/vm.py")],
  ["vm.vm", "vm.command_visitor", "vm", "vm.types.errors", "vm.types.layer_id", "vm.commands.command", "vm.commands.layer", "vm.commands.paste",
   "vm.pillow.vm :: PillowVirtualMachine.*, Pillow*Layer*", "vm.shapely.vm :: ShapelyVirtualMachine.*, Shapely*Layer*", "vm.types.box", "vm.types.vector", "vm.rvmc"],
  rules=["vm_siblings"],
  observe=["render", "VirtualMachine.run"])

P("C15", "Raster rendering maps millimetres to pixels consistently and in order",
  "The Pillow renderer draws every command, in order, at position (mm - layer origin) x dots-per-mm with the Y axis up, "
  "fills outlines including arcs on their stated side, paints negative commands as background and positive ones as foreground, pastes "
  "layers at the stated centre, and yields an image whose size is the layer box times dots-per-mm with the requested colours.",
  ["inputs", "configurations"],
  "all command lists and resolutions, styles and output formats",
  "Tests compare renders of samples at one resolution.",
  ["vm/pillow/vm.py", "vm/pillow/errors.py"],
  [("PillowVirtualMachine on_shape/on_paste", "vm/pillow/vm.py"), ("PillowResult recolouring and save", "vm/pillow/vm.py")],
  ["vm.pillow.*", "vm", "vm.vm", "vm.types.style", "vm.types.color :: Color*", "vm.types.*", "vm.commands.*", "vm.command_visitor", "vm.rvmc"],
  observe=["PillowResult.get_image / save*"])

P("C16", "Vector rendering adds positive and subtracts negative shapes in order",
  "The Shapely renderer turns every command, in order, into the polygon bounded by its lines and arcs (arcs on their stated side and direction), unites positive shapes with "
  "and subtracts negative shapes from the current layer, pastes layers translated to the stated centre, and writes the result as SVG with the requested scale and colours.",
  ["inputs", "configurations"],
  "all command lists, precisions, colours",
  "Tests check that SVG files are produced for samples.",
  ["vm/shapely/vm.py", "vm/shapely/errors.py"],
  [("ShapelyVirtualMachine on_shape/on_paste", "vm/shapely/vm.py")],
  ["vm.shapely.*", "vm", "vm.vm", "vm.types.style", "vm.types.color :: Color*", "vm.types.*", "vm.commands.*", "vm.command_visitor", "vm.rvmc"],
  observe=["ShapelyResult.save_svg"])

P("C17", "The Gerber builder emits a valid file with the requested objects in order",
  "For every sequence of builder calls, the generated program sets units and format first, defines every pad and macro before its use "
  "with a unique code, and contains each requested pad, trace, arc and region with its own position, size, rotation, polarity and attributes, "
  "switching interpolation mode, polarity and attributes whenever they differ from what is in force, and ends with M02.",
  ["histories", "inputs"],
  "all call sequences with all parameters",
  "Mode switching depends on the whole call history; tests build a few files.",
  ["builder/gerber.py"],
  [("GerberX3Builder tracks current aperture, plot mode, polarity and attributes", "builder/gerber.py")],
  ["builder.gerber", "gerber.ast.state_tracking_visitor :: CoordinateFormat*", "gerber.ast.nodes.* :: fields *, enum *, const *", "gerber.formatter", "gerber.formatter.formatter"],
  observe=["GerberX3Builder.get_code"])

P("C18", "The RVMC builder produces exactly the requested commands per layer",
  "For every sequence of calls on the RVMC builder, the built command list contains each requested shape and paste in call order, inside its own layer, with "
  "the stated dimensions and polarity; a finished layer cannot be changed and nested layers are complete before their parent continues.",
  ["histories", "inputs"],
  "all call sequences",
  "Histories of builder calls are unbounded.",
  ["builder/rvmc.py"],
  [("RvmcBuilder / LayerBuilder", "builder/rvmc.py")],
  ["builder.rvmc", "vm.commands.shape", "vm.commands.paste", "vm.commands.layer", "vm.rvmc", "vm.commands.*", "vm.types.*"],
  observe=["RvmcBuilder.get_rvmc"])

P("C19", "The file API always reflects the current source, options and style",
  "A Gerber file object loaded from text, a path or a buffer renders and formats exactly that source under the options last set; "
  "images report the true extents, pixel size and units of what was rendered, and saving writes them "
  "in the requested format. Setting parser or compiler options never leaves an outdated result in use.",
  ["histories", "inputs", "configurations"],
  "all orders of loading, option setting, rendering and saving",
  "Caching faults need a particular order of calls.",
  ["gerber/api/_gerber_file.py"],
  [("GerberFile caches and option setters", "gerber/api/_gerber_file.py"), ("ImageSpace conversions", "gerber/api/_gerber_file.py")],
  ["gerber.api._gerber_file", "gerber.api._errors", "gerber.compiler", "gerber.parser", "gerber.formatter", "gerber.api*", "vm.pillow.vm :: PillowResult*", "vm.shapely.vm :: ShapelyResult*", "vm.types.box", "vm"],
  rules=["cache_reset"],
  observe=["GerberFile", "PillowImage", "ShapelyImage"])

P("C20", "File types are inferred by documented rules; composites align all files",
  "The type of a file is the one its file-function attribute declares, else the one its extension maps to, else unknown, and selects its colours unless overridden. "
  "A composite renders every file, in the given order, on one canvas covering all of them with each placed at its true position, "
  "and a project exposes its top, bottom and inner layers as given.",
  ["inputs", "configurations"],
  "all attribute values, extensions, sets and orders of files",
  "Tests cover a few extensions and one project.",
  ["gerber/api/_enums.py", "gerber/api/_composite_view.py", "gerber/api/_project.py", "gerber/api/_gerber_file.py"],
  [("FileTypeEnum.infer_*", "gerber/api/_enums.py"), ("CompositeView.render_with_pillow", "gerber/api/_composite_view.py"), ("Project", "gerber/api/_project.py")],
  ["gerber.api._enums", "gerber.api._composite_view", "gerber.api._project", "gerber.api._gerber_file", "gerber.ast.nodes.enums :: FileFunction*, *Part*", "vm.types.style", "vm.types.color", "vm.types.box", "gerber.api*"],
  rules=["map_totality"],
  observe=["FileTypeEnum", "CompositeView", "Project"])

P("C21", "A job file becomes a project with each listed file in its stated layer",
  "Loading a job file accepts every key of the job format, resolves each listed path relative to the job file, and yields a project in which each file "
  "appears once, on the side and at the depth its file function states, in stacking order.",
  ["inputs"],
  "all job files",
  "Tests load one job file.",
  ["gerber/api/_gerber_job_file.py", "gerber/api/_project.py"],
  [("GerberJobFile.to_project", "gerber/api/_gerber_job_file.py")],
  ["gerber.api._gerber_job_file", "gerber.api._project", "gerber.api._errors", "gerber.api._enums :: FileTypeEnum*", "gerber.api*"],
  observe=["GerberJobFile.from_file / to_project"])

P("C22", "Every CLI option reaches the library call it documents",
  "Each command-line command performs exactly its documented operation on the given files: every option value given (style, colours, resolution, file type, "
  "format options, output path, quality, order) is passed to the corresponding library parameter, omitted options take their documented default, and invalid values end in a "
  "usage error before any output is written.",
  ["inputs", "configurations"],
  "all command lines",
  "The CLI has dozens of options per command; tests run a few command lines.",
  ["console/gerber.py", "console/commands.py"],
  [("click commands", "console/gerber.py")],
  ["console.*"],
  observe=["pygerber CLI"])

P("C23", "The linter reports each occurrence its rules name, once, with its place",
  "Linting any tree reports, in order, one violation for every occurrence of a construct that an enabled rule forbids, with that occurrence's start and end position and the rule's own "
  "identifier, title and description, and reports nothing else; all listeners of a node kind are called once per node.",
  ["inputs", "configurations"],
  "all syntax trees and all sets of rules",
  "Tests lint one small file per rule.",
  ["gerber/linter/"],
  [("EventAstVisitor listener dispatch", "gerber/linter/event_ast_visitor.py"), ("rules", "gerber/linter/rules/")],
  ["gerber.linter*", "gerber.ast.nodes.base", "common.position", "gerber.ast.ast_visitor"],
  rules=["event_total"],
  observe=["pygerber.gerber.linter.lint"])

P("C24", "Editor features describe the construct under the cursor, in current text",
  "For every document and cursor position, node lookup finds the innermost command whose span contains the position, hover text describes that command "
  "with the state in force there, completions offer exactly what is defined or permitted at that point, and all answers are computed from the latest document text.",
  ["inputs", "histories"],
  "all documents, positions and edit histories",
  "Tests query a handful of positions.",
  ["gerber/language_server/", "gerber/ast/node_finder.py", "common/position.py", "gerber/spec/rev_2024_05.py", "gerber/pygments.py"],
  [("NodeFinder", "gerber/ast/node_finder.py"), ("GerberDocument handlers and cache", "gerber/language_server/_server/documents/gerber.py"),
   ("hover markdown", "gerber/language_server/_server/hover/gerber.py")],
  ["gerber.language_server*", "gerber.ast.node_finder", "common.position", "gerber.spec.*", "gerber.pygments", "gerber.ast.nodes.base", "gerber.ast.state_tracking_visitor :: CoordinateFormat*, State.*, fields *, State*", "gerber.ast.errors"],
  observe=["language server requests"])

P("C25", "Visiting, formatting, compiling and rendering never alter their inputs",
  "No visitor, formatter, compiler, linter, renderer or geometry operation changes the syntax tree, command list, shape, vector, style or option object it is given, so the "
  "same input can be processed again, in any order, with the same outcome.",
  ["histories", "inputs"],
  "all inputs and all orders of repeated operations",
  "Tests build fresh inputs for each operation.",
  ["gerber/", "vm/", "builder/"],
  [("visitors return nodes and keep state in themselves", "gerber/ast/ast_visitor.py"), ("frozen geometry models", "vm/types/model.py")],
  ["vm.types.*", "vm.commands.* :: *.transform, *.outer_box, fields *", "vm.types.model", "gerber.ast.nodes.model", "gerber.ast.nodes.base"],
  rules=["purity"],
  observe=["any input object after the call"])

P("C26", "The same input and options always give the same output",
  "Parsing, formatting, compiling, rendering and building depend only on their input and options: no output contains or is ordered by time, randomness, memory addresses, hash order, "
  "environment or the process's earlier work.",
  ["schedules", "histories", "inputs"],
  "all inputs, across processes and repeated runs in one process",
  "Tests run once per process with one hash seed.",
  ["gerber/", "vm/", "builder/"],
  [("ordered containers and counters", "gerber/compiler/compiler.py")],
  ["gerber.compiler.compiler :: Compiler.on_sr*, Compiler.compile, CommandBuffer*, MacroEvalVisitor.on_code_7", "builder.gerber :: GerberX3Builder.*",
   "common.namespace", "vm.types.layer_id"],
  rules=["determinism", "module_state", "shared_state"],
  observe=["RVMC JSON", "formatted text", "built Gerber code"])

P("C27", "Core features work without the optional dependencies installed",
  "Importing the package and using parser, formatter, compiler, Pillow rendering, linter and CLI never imports shapely, the language-server libraries or pygments; asking for a feature that needs a missing one raises "
  "the documented not-installed error instead of an import failure, and availability probes answer without raising.",
  ["configurations"],
  "all subsets of optional dependencies installed",
  "The test environment has every extra installed.",
  ["vm/shapely/", "gerber/language_server/", "gerber/pygments.py", "vm/__init__.py", "console/", "examples/__init__.py", "__main__.py"],
  [("guarded imports and availability probes", "vm/shapely/vm.py"), ("local imports at the point of use", "gerber/language_server/status.py")],
  ["vm.shapely.vm :: fn is_*, const *, ShapelyVirtualMachine.__init__, ShapelyVirtualMachine.run", "vm.shapely.errors", "gerber.language_server.status", "gerber.language_server.errors", "gerber.language_server.__main__",
   "gerber.pygments :: fn *, const *", "vm :: fn *", "examples"],
  rules=["optional_imports"],
  observe=["import pygerber without extras"])

P("C28", "Colours and styles convert without loss and every file type has one",
  "Colour conversions between RGBA channels, hexadecimal text and HSV are exact inverses on channel values with each channel in its own place and out-of-range or malformed input rejected, and "
  "the colour tables and presets give the documented foreground and background for every file type.",
  ["inputs", "configurations"],
  "all channel values, hex strings, hue/saturation/value triples and file types",
  "256^4 colours and all table entries; tests check a few.",
  ["vm/types/color.py", "vm/types/style.py", "gerber/api/_enums.py"],
  [("Color.from_* / to_*", "vm/types/color.py"), ("Style presets", "vm/types/style.py"), ("colour maps", "gerber/api/_enums.py")],
  ["vm.types.color", "vm.types.style", "gerber.api._enums", "common.namespace", "vm.pillow.vm :: PillowVirtualMachine.get_color, PillowResult.*"],
  rules=["map_totality"],
  observe=["Color", "Style", "DEFAULT_COLOR_MAP"])

P("C29", "Serialised trees and command lists carry a unique type tag and all fields",
  "Every syntax-tree node, drawing command and geometry value serialises with a tag unique to its kind and with all its fields, under stable names, types and defaults, so that "
  "loading the JSON gives back an equal object of the same kind.",
  ["inputs", "programs"],
  "all trees and command lists",
  "Tests round-trip a few commands.",
  ["gerber/ast/nodes/", "vm/types/model.py", "vm/rvmc.py", "vm/commands/"],
  [("class qualname tag", "gerber/ast/nodes/model.py"), ("pydantic fields", "gerber/ast/nodes/")],
  ["gerber.ast.nodes.* :: fields *, *.__class_qualname__, enum *, const *", "gerber.ast.nodes.model", "vm.types.* :: fields *, *.__class_qualname__", "vm.types.model",
   "vm.commands.* :: fields *, *.__class_qualname__", "vm.rvmc"],
  rules=["unique_tags"],
  observe=["model_dump_json / RVMC.to_json"])

P("C30", "Failures surface as the documented error type, never as a wrong result",
  "Undefined or unselected apertures, missing coordinate formats, undefined macros, cyclic or missing layers, too small resolutions, invalid regions and colours, and unsupported operations raise the "
  "library's own error for that condition, derived from its documented base class, before any output for that command exists; a program stop ends "
  "processing without error.",
  ["inputs", "histories"],
  "all erroneous inputs and histories",
  "Tests provoke only a few of the error conditions.",
  ["gerber/ast/errors.py", "gerber/compiler/errors.py", "vm/types/errors.py", "vm/pillow/errors.py", "vm/shapely/errors.py", "gerber/api/_errors.py", "common/error.py"],
  [("error classes", "gerber/ast/errors.py"), ("raise sites", "gerber/ast/state_tracking_visitor.py")],
  ["*.errors", "*._errors", "common.error", "gerber.ast.state_tracking_visitor :: StateTrackingVisitor.on_exception, StateTrackingVisitor.on_d0*, StateTrackingVisitor.on_flash*, StateTrackingVisitor.on_dnn, StateTrackingVisitor.coordinate*, StateTrackingVisitor.on_m*, State.*, CoordinateFormat.*, ProgramStop*",
   "gerber.compiler.compiler :: Compiler.compile, Compiler.on_flash_macro, Compiler.on_exception, Compiler.on_*region*, Compiler.on_g3*",
   "vm.vm", "vm.pillow.vm :: *.create_*, *.layer, *.run", "vm.shapely.vm :: *.create_*, *.layer, *.run, *.__init__",
   "vm.types.color :: Invalid*, Color.from_hex", "builder.gerber :: *Error*, RegionCreator.*, GerberX3Builder.*", "builder.rvmc",
   "gerber.ast.ast_visitor :: *.on_exception, *.on_file, *.on_ad", "gerber.parser*  :: Parser*, parse", "gerber.language_server.status"],
  observe=["exceptions seen by the caller"], lens=["raises"])

BY_ID: Dict[str, Prop] = {p.id: p for p in PROPS}

NOT_APPLICABLE = [
    Prop("N01", "Raster and vector renderings of the same program agree to within one pixel",
         "For every program, the raster image and the vector image show the same picture up to one pixel at the chosen resolution.",
         ["inputs"], "all programs and resolutions", "Tests never compare the two backends.",
         ["vm/pillow/vm.py", "vm/shapely/vm.py"], [("two independent backends", "vm/vm.py")], []),
    Prop("N02", "Formatting is idempotent and parses back to an equal tree",
         "For every accepted source, parsing the formatted text gives an equal tree, and formatting it again gives the same text.",
         ["inputs", "configurations"], "all sources and options", "Tests check sample files.",
         ["gerber/formatter/formatter.py", "gerber/parser/pyparsing/grammar.py"], [("grammar and formatter are separate descriptions", "gerber/formatter/formatter.py")], []),
    Prop("N03", "Parsing and rendering finish within time and memory linear in the input",
         "Parsing, compiling and rendering any file finish within time and memory proportional to its size and to the output size.",
         ["inputs"], "all inputs", "Tests only measure small files.",
         ["gerber/parser/pyparsing/grammar.py", "vm/pillow/vm.py"], [("packrat/pyparsing", "gerber/parser/pyparsing/grammar.py")], []),
]
NA_REASON = {
    "N01": "compares the numerical output of two rasterisers (Pillow and GEOS) over continuous runtime values; the pixels are computed by external C code, so no structural fact of this source bounds the difference (the structural parts - command order, placement, polarity - are claimed in C14-C16)",
    "N02": "equality of two unbounded runtime strings/trees through pyparsing's matching; only the structural halves (what each grammar rule builds, C02, and what each handler prints, C03/C04) are decidable from the source",
    "N03": "time and memory are runtime quantities of pyparsing, Pillow and GEOS",
}
