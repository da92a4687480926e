"""Behaviour-preserving rewrites of the grammar, the parser and the AST visitor."""
GM = "gerber/parser/pyparsing/grammar.py"; PA = "gerber/parser/pyparsing/parser.py"; PI = "gerber/parser/__init__.py"
AV = "gerber/ast/ast_visitor.py"

ROOT = open("/repo/src/pygerber/" + GM).read()
_b0 = ROOT.index("    def build(self) -> pp.ParserElement:"); _b1 = ROOT.index("    @pp.cached_property\n    def _asterisk")
rf("gm-build-shared", (GM, ROOT[_b0:_b1], '''    def build(self) -> pp.ParserElement:
        """Build the grammar."""
        return self._build_root(self._commands())

    def build_resilient(self) -> pp.ParserElement:
        """Build the grammar."""
        return self._build_root([*self._commands(), self._invalid_token])

    def _commands(self) -> list[pp.ParserElement]:
        return [
            self.d_codes_standalone,
            self.g_codes,
            self.load_commands,
            self.aperture(),
            self.attribute,
            self.properties,
            self.m_codes,
        ]

    def _build_root(self, commands: list[pp.ParserElement]) -> pp.ParserElement:
        root = (
            pp.OneOrMore(pp.MatchFirst(commands))
            .set_results_name("root_node")
            .set_parse_action(self._make_file)
        )

        if self.enable_packrat:
            root.enable_packrat(cache_size_limit=self.packrat_cache_size)

        if self.enable_debug:
            root.set_debug()

        return root

    def _make_file(self, s: str, loc: int, tokens: pp.ParseResults) -> File:
        return self.get_cls(File)(
            source_info=SourceInfo(source=s, location=loc, length=len(s) - loc),
            nodes=tokens.as_list(),
        )

'''))
rf("gm-build-flag", (GM, ROOT[_b0:_b1], '''    def build(self) -> pp.ParserElement:
        """Build the grammar."""
        return self._build(resilient=False)

    def build_resilient(self) -> pp.ParserElement:
        """Build the grammar."""
        return self._build(resilient=True)

    def _build(self, *, resilient: bool) -> pp.ParserElement:
        def _(s: str, loc: int, tokens: pp.ParseResults) -> File:
            return self.get_cls(File)(
                source_info=SourceInfo(source=s, location=loc, length=len(s) - loc),
                nodes=tokens.as_list(),
            )

        commands = [
            self.d_codes_standalone,
            self.g_codes,
            self.load_commands,
            self.aperture(),
            self.attribute,
            self.properties,
            self.m_codes,
        ]
        if resilient:
            commands.append(self._invalid_token)

        root = pp.OneOrMore(pp.MatchFirst(commands))
        root = root.set_results_name("root_node").set_parse_action(_)

        if self.enable_packrat:
            root.enable_packrat(cache_size_limit=self.packrat_cache_size)

        if self.enable_debug:
            root.set_debug()

        return root

'''))
rf("gm-unpack-locals", (GM, '''            return self.get_cls(node_type)(
                source_info=SourceInfo(
                    source=s, location=loc, length=sum(len(t) for t in tokens.as_list())
                ),
                **tokens.as_dict(),
                **kwargs,
            )
''', '''            length = 0
            for token in tokens.as_list():
                length += len(token)
            cls = self.get_cls(node_type)
            source_info = SourceInfo(source=s, location=loc, length=length)
            return cls(source_info=source_info, **tokens.as_dict(), **kwargs)
'''))
rf("gm-unpack-map", (GM, '''length=sum(len(t) for t in tokens.as_list())''', '''length=sum(map(len, tokens.as_list()))'''))
rf("gm-getcls", (GM, '''        return self.ast_node_class_overrides.get(node_cls.__qualname__, node_cls)  # type: ignore[return-value]
''', '''        name = node_cls.__qualname__
        if name in self.ast_node_class_overrides:
            return self.ast_node_class_overrides[name]  # type: ignore[return-value]
        return node_cls
'''))
BODY = '''                + pp.ZeroOrMore(
                    pp.MatchFirst(
                        [
                            self.d_codes_standalone,
                            self.g_codes,
                            self.load_commands,
                            self.properties,
                            self.attribute,
                            self.add_aperture,
                            self.step_repeat_forward,
                            self.aperture_block_forward,
                            self.macro,
                            # Technically not valid according to standard.
                            self.m_codes,
                        ]
                    )
                ).set_results_name("nodes")
'''
rf("gm-block-body", *_all(GM, BODY, '''                + self._block_body().set_results_name("nodes")
''', (GM, '''    @pp.cached_property
    def ab_open(self)''', '''    def _block_body(self) -> pp.ParserElement:
        return pp.ZeroOrMore(
            pp.MatchFirst(
                [
                    self.d_codes_standalone,
                    self.g_codes,
                    self.load_commands,
                    self.properties,
                    self.attribute,
                    self.add_aperture,
                    self.step_repeat_forward,
                    self.aperture_block_forward,
                    self.macro,
                    # Technically not valid according to standard.
                    self.m_codes,
                ]
            )
        )

    @pp.cached_property
    def ab_open(self)''')))
FIELDS = '''                + pp.ZeroOrMore(
                    self.comma
                    + self.field.set_results_name("fields", list_all_matches=True)
                )
'''
rf("gm-fields-helper", *_all(GM, FIELDS, '''                + self._fields()
''', (GM, '''    @pp.cached_property
    def _ta(self) -> pp.ParserElement:
''', '''    def _fields(self) -> pp.ParserElement:
        field = self.field.set_results_name("fields", list_all_matches=True)
        return pp.ZeroOrMore(self.comma + field)

    @pp.cached_property
    def _ta(self) -> pp.ParserElement:
''')))
rf("gm-fields-property", *_all(GM, FIELDS, '''                + self._fields
''', (GM, '''    @pp.cached_property
    def _ta(self) -> pp.ParserElement:
''', '''    @property
    def _fields(self) -> pp.ParserElement:
        return pp.ZeroOrMore(
            self.comma + self.field.set_results_name("fields", list_all_matches=True)
        )

    @pp.cached_property
    def _ta(self) -> pp.ParserElement:
''')))
rf("gm-hole-helper", *_all(GM, '''                + pp.Opt(self._x + self.double.set_results_name("hole_diameter"))
''', '''                + self._optional_hole()
''', (GM, '''    def add_aperture_circle(self)''', '''    def _optional_hole(self) -> pp.ParserElement:
        return pp.Opt(self._x + self.double.set_results_name("hole_diameter"))

    def add_aperture_circle(self)''')))
rf("gm-chain-order", (GM, '''            .set_name("ADC")
            .set_parse_action(self.make_unpack_callback(ADC))
''', '''            .set_parse_action(self.make_unpack_callback(ADC))
            .set_name("ADC")
'''))
rf("gm-cb", (GM, '''            .set_parse_action(self.make_unpack_callback(LN))
            .set_name("LN")
        )
''', '''            .set_parse_action(self.make_unpack_callback(node_type=LN))
            .set_name("LN")
        )
'''))
rf("gm-load-helper", (GM, '''        return (
            self._extended_command(
                pp.Literal("LR") + self.double.set_results_name("rotation")
            )
            .set_parse_action(self.make_unpack_callback(LR))
            .set_name("LR")
        )
''', '''        return self._load("LR", self.double.set_results_name("rotation"), LR)

    def _load(
        self, code: str, value: pp.ParserElement, cls: Type[Node]
    ) -> pp.ParserElement:
        return (
            self._extended_command(pp.Literal(code) + value)
            .set_parse_action(self.make_unpack_callback(cls))
            .set_name(code)
        )
'''), (GM, '''        return (
            self._extended_command(
                pp.Literal("LS") + self.double.set_results_name("scale")
            )
            .set_parse_action(self.make_unpack_callback(LS))
            .set_name("LS")
        )
''', '''        return self._load("LS", self.double.set_results_name("scale"), LS)
'''))
rf("gm-d-codes-list", (GM, '''        return pp.MatchFirst(
            [
                self._dnn(is_standalone=is_standalone),
                self._d01(is_standalone=is_standalone),
                self._d02(is_standalone=is_standalone),
                self._d03(is_standalone=is_standalone),
            ]
        )
''', '''        return pp.MatchFirst(
            [
                make(is_standalone=is_standalone)
                for make in (self._dnn, self._d01, self._d02, self._d03)
            ]
        )
'''))
rf("gm-d01-cond", (GM, '''        regex_d01: pp.ParserElement = pp.Regex(r"D0*1")
        if self.syntax_switches.allow_d01_without_code:
            regex_d01 = pp.Opt(regex_d01)
''', '''        code: pp.ParserElement = pp.Regex(r"D0*1")
        regex_d01 = (
            pp.Opt(code) if self.syntax_switches.allow_d01_without_code else code
        )
'''))
rf("gm-xy-helper", *_all(GM, '''                pp.Opt(self._coordinate_x.set_results_name("x"))
                + pp.Opt(self._coordinate_y.set_results_name("y"))
''', '''                self._xy()
''', (GM, '''    def _d01(self''', '''    def _xy(self) -> pp.ParserElement:
        return pp.Opt(self._coordinate_x.set_results_name("x")) + pp.Opt(
            self._coordinate_y.set_results_name("y")
        )

    def _d01(self''')))
GT = '''                        (
                            G01,
                            G02,
                            G03,
                            G36,
                            G37,
                            G54,
                            G55,
                            G70,
                            G71,
                            G74,
                            G75,
                            G90,
                            G91,
                        )
'''
GT2 = '''                    (
                        G01,
                        G02,
                        G03,
                        G36,
                        G37,
                        G54,
                        G55,
                        G70,
                        G71,
                        G74,
                        G75,
                        G90,
                        G91,
                    )
'''
rf("gm-g-tuple-local", (GM, GT, "                        g_classes\n"), (GM, GT2, "                    g_classes\n"), (GM, '''        def _standalone(cls: Type[Node])''', '''        g_classes = (
            G01,
            G02,
            G03,
            G36,
            G37,
            G54,
            G55,
            G70,
            G71,
            G74,
            G75,
            G90,
            G91,
        )

        def _standalone(cls: Type[Node])'''))
rf("gm-g-tuple-const", (GM, GT, "                        _G_CODES\n"), (GM, GT2, "                    _G_CODES\n"), (GM, '''class Optimization(IntFlag):''', '''_G_CODES = (G01, G02, G03, G36, G37, G54, G55, G70, G71, G74, G75, G90, G91)


class Optimization(IntFlag):'''))
rf("gm-g-reversed", (GM, GT2, '''                    [G01, G02, G03, G36, G37, G54, G55, G70, G71, G74, G75, G90, G91]
'''))
rf("gm-g-desc", (GM, '''                for cls in reversed(
''' + GT2 + '''                )
''', '''                for cls in (
                    G91, G90, G75, G74, G71, G70, G55, G54, G37, G36, G03, G02, G01
                )
'''))
rf("gm-g04", (GM, '''        if self.optimization & Optimization.DISCARD_COMMENTS:
            g04_comment = pp.Suppress(g04_comment)
        else:
            g04_comment = g04_comment.set_parse_action(self.make_unpack_callback(G04))
''', '''        if not self.optimization & Optimization.DISCARD_COMMENTS:
            g04_comment.set_parse_action(self.make_unpack_callback(G04))
        else:
            g04_comment = pp.Suppress(g04_comment)
'''))
rf("gm-g-code-helper", *_all(GM, '''            code = int(cls.__qualname__.lstrip("G"))
''', '''            code = _g_number(cls)
''', (GM, '''def take_only(expr''', '''def _g_number(cls: Type[Node]) -> int:
    return int(cls.__qualname__.lstrip("G"))


def take_only(expr''')))
rf("gm-m-list", (GM, '''        return pp.MatchFirst(
            [
                self.m(
                    value,
                    self.get_cls(cls),  # type: ignore[arg-type, type-abstract]
                )
                for (value, cls) in (
                    (2, M02),
                    (1, M01),
                    (0, M00),
                )
            ]
        )
''', '''        return pp.MatchFirst(
            [
                self.m(2, self.get_cls(M02)),
                self.m(1, self.get_cls(M01)),
                self.m(0, self.get_cls(M00)),
            ]
        )
'''))
rf("gm-m-fstring", (GM, '''pp.Regex(r"M0*" + str(value))''', '''pp.Regex(f"M0*{value}")'''))
rf("gm-prim-format", (GM, '''            self._command(pp.Literal(str(code)) + fields)
            .set_name(f"primitive-{code}")
''', '''            self._command(pp.Literal(f"{code}") + fields)
            .set_name("primitive-" + str(code))
'''))
rf("gm-prim-expr-helper", *_all(GM, '''self.expression.set_results_name(''', '''self._expr(''', (GM, '''    def primitive(
''', '''    def _expr(self, name: str) -> pp.ParserElement:
        return self.expression.set_results_name(name)

    def primitive(
''')))
rf("gm-prim-args-helper", (GM, '''                        cs
                        + self.expression.set_results_name("exposure")
                        + cs
                        + self.expression.set_results_name("width")
                        + cs
                        + self.expression.set_results_name("height")
                        + cs
                        + self.expression.set_results_name("center_x")
                        + cs
                        + self.expression.set_results_name("center_y")
                        + cs
                        + self.expression.set_results_name("rotation"),
''', '''                        self._arguments(
                            "exposure",
                            "width",
                            "height",
                            "center_x",
                            "center_y",
                            "rotation",
                        ),
'''), (GM, '''    def primitive(
''', '''    def _arguments(self, first: str, *names: str) -> pp.ParserElement:
        element = self.comma + self.expression.set_results_name(first)
        for name in names:
            element = element + self.comma + self.expression.set_results_name(name)
        return element

    def primitive(
'''))
rf("gm-expr-binary-helper", (GM, '''        # Binary / operator
        op_expr = pp.Literal("/")

        this_expr = pp.Forward()
        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
            last_expr("head")
            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
                1, ...
            ]
        ).set_parse_action(self.make_unpack_callback(Div))
        this_expr <<= match_expr | last_expr
        last_expr = this_expr

        # Binary x|X operator
        op_expr = pp.one_of(["x", "X"])

        this_expr = pp.Forward()
        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
            last_expr("head")
            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
                1, ...
            ]
        ).set_parse_action(self.make_unpack_callback(Mul))
        this_expr <<= match_expr | last_expr
        last_expr = this_expr

        # Binary - operator
        op_expr = pp.Literal("-")

        this_expr = pp.Forward()
        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
            last_expr("head")
            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
                1, ...
            ]
        ).set_parse_action(self.make_unpack_callback(Sub))
        this_expr <<= match_expr | last_expr
        last_expr = this_expr

        # Binary - operator
        op_expr = pp.Literal("+")

        this_expr = pp.Forward()
        match_expr = pp.FollowedBy(last_expr + op_expr + last_expr) + (
            last_expr("head")
            + (op_expr + last_expr.set_results_name("tail", list_all_matches=True))[
                1, ...
            ]
        ).set_parse_action(self.make_unpack_callback(Add))
        this_expr <<= match_expr | last_expr
        last_expr = this_expr

        expr <<= last_expr
''', '''        last_expr = self._binary(last_expr, pp.Literal("/"), Div)
        last_expr = self._binary(last_expr, pp.one_of(["x", "X"]), Mul)
        last_expr = self._binary(last_expr, pp.Literal("-"), Sub)
        last_expr = self._binary(last_expr, pp.Literal("+"), Add)

        expr <<= last_expr
'''), (GM, '''    @pp.cached_property
    def constant(self)''', '''    def _binary(
        self, operand: pp.ParserElement, op_expr: pp.ParserElement, cls: Type[Node]
    ) -> pp.ParserElement:
        this_expr = pp.Forward()
        match_expr = pp.FollowedBy(operand + op_expr + operand) + (
            operand("head")
            + (op_expr + operand.set_results_name("tail", list_all_matches=True))[
                1, ...
            ]
        ).set_parse_action(self.make_unpack_callback(cls))
        this_expr <<= match_expr | operand
        return this_expr

    @pp.cached_property
    def constant(self)'''))
rf("gm-coordinate-helper", (GM, '''        return (
            (pp.CaselessLiteral("X") + self.integer.set_results_name("value"))
            .set_parse_action(self.make_unpack_callback(CoordinateX))
            .set_name("coordinate.x")
        )
''', '''        return self._coordinate("X", CoordinateX)

    def _coordinate(self, axis: str, cls: Type[Node]) -> pp.ParserElement:
        return (
            (pp.CaselessLiteral(axis) + self.integer.set_results_name("value"))
            .set_parse_action(self.make_unpack_callback(cls))
            .set_name(f"coordinate.{axis.lower()}")
        )
'''), (GM, '''        return (
            (pp.CaselessLiteral("Y") + self.integer.set_results_name("value"))
            .set_parse_action(self.make_unpack_callback(CoordinateY))
            .set_name("coordinate.y")
        )
''', '''        return self._coordinate("Y", CoordinateY)
'''))
rf("gm-fs-digit", *_all(GM, '''                + pp.Regex(r"[0-9]").set_results_name(''', '''                + digit.set_results_name(''', (GM, '''        """Create a parser for the FS command."""
''', '''        """Create a parser for the FS command."""
        digit = pp.Regex(r"[0-9]")
''')))
rf("gm-extended", (GM, '''        return self._extended + inner + self._asterisk + self._extended
''', '''        return self._extended + self._command(inner) + self._extended
'''))
rf("gm-init-switch", (GM, '''        self.syntax_switches = syntax_switches or SyntaxSwitches()
''', '''        if not syntax_switches:
            syntax_switches = SyntaxSwitches()
        self.syntax_switches = syntax_switches
'''))
rf("pa-grammar-cond", (PA, '''        if resilient:
            self.grammar = builder.build_resilient()
        else:
            self.grammar = builder.build()
''', '''        self.grammar = builder.build_resilient() if resilient else builder.build()
'''))
rf("pa-parse-vars", (PA, '''        parse_result = self.grammar.parseString(code, parse_all=strict).get("root_node")
        assert isinstance(parse_result, File)
        return parse_result
''', '''        tokens = self.grammar.parseString(code, parse_all=strict)
        root = tokens.get("root_node")
        assert isinstance(root, File)
        return root
'''))
rf("pi-parse-guard", (PI, '''    if parser == "pyparsing":
        from pygerber.gerber.parser.pyparsing.parser import Parser  # noqa: PLC0415

        return Parser(
            resilient=resilient, ast_node_class_overrides=ast_node_class_overrides
        ).parse(code, strict=strict)

    msg = f"Parser '{parser}' is not supported."  # type: ignore[unreachable]
    raise NotImplementedError(msg)
''', '''    if parser != "pyparsing":
        raise NotImplementedError(f"Parser '{parser}' is not supported.")

    from pygerber.gerber.parser.pyparsing.parser import Parser  # noqa: PLC0415

    backend = Parser(ast_node_class_overrides, resilient=resilient)
    return backend.parse(code, strict=strict)
'''))
rf("av-code-visit-all", (AV, '''        node.exposure.visit(self)
        node.width.visit(self)
        node.height.visit(self)
        node.x_lower_left.visit(self)
        node.y_lower_left.visit(self)
        node.rotation.visit(self)
        return node
''', '''        for expression in (
            node.exposure,
            node.width,
            node.height,
            node.x_lower_left,
            node.y_lower_left,
            node.rotation,
        ):
            expression.visit(self)
        return node
'''))
rf("av-code-visit-helper", (AV, '''        node.exposure.visit(self)
        node.width.visit(self)
        node.height.visit(self)
        node.x_lower_left.visit(self)
        node.y_lower_left.visit(self)
        node.rotation.visit(self)
        return node
''', '''        self._visit_all(
            node.exposure,
            node.width,
            node.height,
            node.x_lower_left,
            node.y_lower_left,
            node.rotation,
        )
        return node

    def _visit_all(self, *nodes: Node) -> None:
        for node in nodes:
            node.visit(self)
'''))
rf("av-file-helper", (AV, '''        try:
            for command in node.nodes:
                try:
                    command.visit(self)
                except Exception as e:  # noqa: PERF203
                    if self.on_exception(command, e):
                        raise
        finally:
            self.on_end_of_file(node)
        return node
''', '''        try:
            for command in node.nodes:
                self._visit_command(command)
        finally:
            self.on_end_of_file(node)
        return node

    def _visit_command(self, command: Node) -> None:
        try:
            command.visit(self)
        except Exception as e:
            if self.on_exception(command, e):
                raise
'''))
rf("av-file-vars", (AV, '''                except Exception as e:  # noqa: PERF203
                    if self.on_exception(command, e):
                        raise
''', '''                except Exception as exception:  # noqa: PERF203
                    should_raise = self.on_exception(command, exception)
                    if should_raise:
                        raise
'''))
rf("av-file-reraise-not", (AV, '''                except Exception as e:  # noqa: PERF203
                    if self.on_exception(command, e):
                        raise
''', '''                except Exception as e:  # noqa: PERF203
                    if not self.on_exception(command, e):
                        continue
                    raise
'''))
