FO = "gerber/formatter/formatter.py"
HOLE = '''
            if node.hole_diameter is not None:
                self._write(f"X{self._fmt_double(node.hole_diameter)}")
'''
def _all(f, old, new, extra=()):
    s = open("/repo/src/pygerber/" + f).read()
    if extra and isinstance(extra[0], str):
        extra = [extra]
    return [(f, old, new)] * s.count(old) + list(extra)

rf("fo-hole-helper", *_all(FO, HOLE, '''
            self._write_hole(node.hole_diameter)
''', [(FO, '''    @_decorator_insert_base_indent
    def on_adc(''', '''    def _write_hole(self, hole_diameter: Optional[Double]) -> None:
        if hole_diameter is None:
            return
        self._write("X")
        self._write(self._fmt_double(hole_diameter))

    @_decorator_insert_base_indent
    def on_adc(''')]))
rf("fo-fields-helper", *_all(FO, '''            for field in node.fields:
                self._write(",")
                self._write(field)
''', '''            self._write_fields(node.fields)
''', [(FO, '''    # Attribute

''', '''    # Attribute

    def _write_fields(self, fields: list[str]) -> None:
        for field in fields:
            self._write(f",{field}")

''')]))
rf("fo-fields-join", (FO, '''            for field in node.net_names:
                self._write(",")
                self._write(field)
''', '''            self._write("".join(f",{name}" for name in node.net_names))
'''))
rf("fo-csup-single", (FO, '''            self._write(",")
            self._write(node.supplier)
            self._write(",")
            self._write(node.supplier_part)
            for field in node.other_suppliers:
                self._write(",")
                self._write(field)
''', '''            for field in [node.supplier, node.supplier_part, *node.other_suppliers]:
                self._write(",")
                self._write(field)
'''))
rf("fo-csup-join", (FO, '''            self._write(",")
            self._write(node.supplier)
            self._write(",")
            self._write(node.supplier_part)
            for field in node.other_suppliers:
                self._write(",")
                self._write(field)
''', '''            fields = (node.supplier, node.supplier_part, *node.other_suppliers)
            self._write("," + ",".join(fields))
'''))
rf("fo-top-join", (FO, '''            self._write(",")
            self._write(node.refdes)
            self._write(",")
            self._write(node.number)
            if node.function is not None:
                self._write(",")
                self._write(node.function)
''', '''            parts = [node.refdes, node.number]
            if node.function is not None:
                parts.append(node.function)
            for part in parts:
                self._write(f",{part}")
'''))
rf("fo-flash-helper", (FO, '''            self._write(",")
            self._write(node.string)

            self._write(",")
            self._write(node.mode)

            self._write(",")
            self._write(node.mirroring)

            self._write(",")
            if node.font is not None:
                self._write(node.font)

            self._write(",")
            if node.size is not None:
                self._write(node.size)

            for comment in node.comments:
                self._write(",")
                self._write(comment)
''', '''            self._write(f",{node.string},{node.mode},{node.mirroring}")
            self._write_optional(node.font)
            self._write_optional(node.size)

            for comment in node.comments:
                self._write(f",{comment}")
'''), (FO, '''    # Attribute

''', '''    # Attribute

    def _write_optional(self, value: Optional[str]) -> None:
        self._write(",")
        if value is not None:
            self._write(value)

'''))
rf("fo-genso-loop", (FO, '''            self._write(",")
            if node.vendor is not None:
                self._write(node.vendor)

            self._write(",")
            if node.application is not None:
                self._write(node.application)

            self._write(",")
            if node.version is not None:
                self._write(node.version)
''', '''            for field in (node.vendor, node.application, node.version):
                self._write(",")
                if field is not None:
                    self._write(field)
'''))
rf("fo-project-or", (FO, '''            self._write(",")
            if node.name is not None:
                self._write(node.name)

            self._write(",")
            if node.guid is not None:
                self._write(node.guid)

            self._write(",")
            if node.revision is not None:
                self._write(node.revision)
''', '''            for field in (node.name, node.guid, node.revision):
                self._write(f",{'' if field is None else field}")
'''))
rf("fo-part-noguard", *_all(FO, '''            if len(node.fields) != 0:
                for field in node.fields:
                    self._write(",")
                    self._write(field)
''', '''            for field in node.fields:
                self._write("," + field)
'''))
rf("fo-sr-loop", (FO, '''            if node.x is not None:
                self._write(f"X{node.x}")

            if node.y is not None:
                self._write(f"Y{node.y}")

            if node.i is not None:
                self._write(f"I{node.i}")

            if node.j is not None:
                self._write(f"J{node.j}")
''', '''            for letter, value in (
                ("X", node.x),
                ("Y", node.y),
                ("I", node.i),
                ("J", node.j),
            ):
                if value is not None:
                    self._write(f"{letter}{value}")
'''))
rf("fo-sr-getattr", (FO, '''            if node.x is not None:
                self._write(f"X{node.x}")

            if node.y is not None:
                self._write(f"Y{node.y}")

            if node.i is not None:
                self._write(f"I{node.i}")

            if node.j is not None:
                self._write(f"J{node.j}")
''', '''            for name in "xyij":
                value = getattr(node, name)
                if value is not None:
                    self._write(f"{name.upper()}{value}")
'''))
rf("fo-sr-helper", (FO, '''            if node.x is not None:
                self._write(f"X{node.x}")

            if node.y is not None:
                self._write(f"Y{node.y}")

            if node.i is not None:
                self._write(f"I{node.i}")

            if node.j is not None:
                self._write(f"J{node.j}")
''', '''            self._write_param("X", node.x)
            self._write_param("Y", node.y)
            self._write_param("I", node.i)
            self._write_param("J", node.j)
'''), (FO, '''    # Attribute

''', '''    def _write_param(self, prefix: str, value: object) -> None:
        if value is not None:
            self._write(f"{prefix}{value}")

    # Attribute

'''))
rf("fo-ad-macro-join", (FO, '''            if node.params:
                first, *rest = node.params
                self._write(f",{first}")
                for param in rest:
                    self._write(f"X{param}")
''', '''            if node.params:
                self._write("," + "X".join(str(param) for param in node.params))
'''))
rf("fo-ad-macro-enum", (FO, '''            if node.params:
                first, *rest = node.params
                self._write(f",{first}")
                for param in rest:
                    self._write(f"X{param}")
''', '''            for index, param in enumerate(node.params or ()):
                separator = "X" if index else ","
                self._write(f"{separator}{param}")
'''))
rf("fo-ad-macro-sep", (FO, '''            if node.params:
                first, *rest = node.params
                self._write(f",{first}")
                for param in rest:
                    self._write(f"X{param}")
''', '''            if node.params:
                self._write(f",{node.params[0]}")
                for param in node.params[1:]:
                    self._write(f"X{param}")
'''))
rf("fo-adp-restructured", (FO, '''            if node.rotation is not None:
                self._write(f"X{self._fmt_double(node.rotation)}")
            elif node.hole_diameter is not None:
                self._write("X0")

            if node.hole_diameter is not None:
                self._write(f"X{self._fmt_double(node.hole_diameter)}")
''', '''            if node.rotation is not None:
                self._write(f"X{self._fmt_double(node.rotation)}")

            if node.hole_diameter is not None:
                if node.rotation is None:
                    self._write("X0")
                self._write(f"X{self._fmt_double(node.hole_diameter)}")
'''))
BIN = '''        if self.explicit_parenthesis:
            self._write("(")

        node.head.visit(self)

        for operand in node.tail:
            self._write("%s")
            operand.visit(self)

        if self.explicit_parenthesis:
            self._write(")")

        return node
'''
rf("fo-binary-helper", *[(FO, BIN % c, f'''        self._binary(node, "{c}")
        return node
''') for c in "+/x-"], (FO, '''    # Math :: Operators :: Binary
''', '''    def _binary(self, node: Add | Sub | Mul | Div, operator: str) -> None:
        if self.explicit_parenthesis:
            self._write("(")

        node.head.visit(self)
        for operand in node.tail:
            self._write(operator)
            operand.visit(self)

        if self.explicit_parenthesis:
            self._write(")")

    # Math :: Operators :: Binary
'''))
rf("fo-binary-cm", *[(FO, BIN % c, f'''        with self._parenthesis():
            node.head.visit(self)
            for operand in node.tail:
                self._write("{c}")
                operand.visit(self)

        return node
''') for c in "+/x-"], (FO, '''    # Math :: Operators :: Binary
''', '''    @contextmanager
    def _parenthesis(self) -> Generator[None, None, None]:
        if self.explicit_parenthesis:
            self._write("(")
        yield
        if self.explicit_parenthesis:
            self._write(")")

    # Math :: Operators :: Binary
'''))
rf("fo-binary-paren-vars", (FO, BIN % "-", '''        opening, closing = ("(", ")") if self.explicit_parenthesis else ("", "")
        self._write(opening)
        node.head.visit(self)

        for operand in node.tail:
            self._write("-")
            operand.visit(self)

        self._write(closing)
        return node
'''))
rf("fo-code1-params", (FO, '''        self._write(f"{self._macro_primitive_lf}1,{self._macro_param_lf}")
        node.exposure.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.diameter.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.center_x.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.center_y.visit(self)

        if node.rotation is not None:
            self._write(f",{self._macro_param_lf}")
            node.rotation.visit(self)

        self._write("*")
        return node
''', '''        self._write(f"{self._macro_primitive_lf}1")
        params = [node.exposure, node.diameter, node.center_x, node.center_y]
        if node.rotation is not None:
            params.append(node.rotation)
        for param in params:
            self._write(f",{self._macro_param_lf}")
            param.visit(self)
        self._write("*")
        return node
'''))
rf("fo-code2-loop", (FO, '''        self._write(f"{self._macro_primitive_lf}2,{self._macro_param_lf}")
        node.exposure.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.width.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.start_x.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.start_y.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.end_x.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.end_y.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.rotation.visit(self)
        self._write("*")
        return node
''', '''        self._write_primitive(
            "2",
            node.exposure,
            node.width,
            node.start_x,
            node.start_y,
            node.end_x,
            node.end_y,
            node.rotation,
        )
        return node

    def _write_primitive(self, code: str, *params: Node) -> None:
        self._write(f"{self._macro_primitive_lf}{code}")
        for param in params:
            self._write(f",{self._macro_param_lf}")
            param.visit(self)
        self._write("*")
'''))
rf("fo-code4-sep-var", (FO, '''        node.exposure.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.number_of_points.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.start_x.visit(self)
        self._write(f",{self._macro_param_lf}")
        node.start_y.visit(self)

        for point in node.points:
            self._write(f",{self._macro_param_lf}")
            point.visit(self)

        self._write(f",{self._macro_param_lf}")
        node.rotation.visit(self)
        self._write("*")
        return node
''', '''        separator = f",{self._macro_param_lf}"
        node.exposure.visit(self)
        self._write(separator)
        node.number_of_points.visit(self)
        self._write(separator)
        node.start_x.visit(self)
        self._write(separator)
        node.start_y.visit(self)

        for param in (*node.points, node.rotation):
            self._write(separator)
            param.visit(self)
        self._write("*")
        return node
'''))
rf("fo-indent-helper", *[(FO, f'''        if isinstance(self.options.{n}, int):
            self.{n} = (
                self.options.indent_character * self.options.{n}
            )
        else:
            self.{n} = self.options.{n}
''', f'''        self.{n} = self._indent_of(self.options.{n})
''') for n in ("macro_body_indent", "macro_param_indent", "block_aperture_body_indent", "step_and_repeat_body_indent")], *[(FO, f'''        if isinstance(self.options.{n}, int):
            self.{n} = self.options.indent_character * self.options.{n}
        else:
            self.{n} = self.options.{n}
''', f'''        self.{n} = self._indent_of(self.options.{n})
''') for n in ("d01_indent", "d02_indent", "d03_indent")], (FO, '''    def format(self, source: File, output''', '''    def _indent_of(self, value: int | str) -> str:
        if isinstance(value, int):
            return self.options.indent_character * value
        return value

    def format(self, source: File, output'''))
rf("fo-strip-early", (FO, '''        if self.strip_whitespace:
            self.lf = ""  # type: ignore[assignment]
            self.indent_character = ""  # type: ignore[assignment]
            self.macro_body_indent = ""
            self.macro_param_indent = ""
            self.block_aperture_body_indent = ""
            self.step_and_repeat_body_indent = ""
            self.d01_indent = ""
            self.d02_indent = ""
            self.d03_indent = ""
            self.empty_line_before_polarity_switch = ""
''', '''        if self.strip_whitespace:
            for name in (
                "lf",
                "indent_character",
                "macro_body_indent",
                "macro_param_indent",
                "block_aperture_body_indent",
                "step_and_repeat_body_indent",
                "d01_indent",
                "d02_indent",
                "d03_indent",
                "empty_line_before_polarity_switch",
            ):
                setattr(self, name, "")
'''))
rf("fo-strip-chain", (FO, '''            self.macro_body_indent = ""
            self.macro_param_indent = ""
            self.block_aperture_body_indent = ""
            self.step_and_repeat_body_indent = ""
            self.d01_indent = ""
            self.d02_indent = ""
            self.d03_indent = ""
''', '''            self.macro_body_indent = self.macro_param_indent = ""
            self.block_aperture_body_indent = self.step_and_repeat_body_indent = ""
            self.d01_indent = self.d02_indent = self.d03_indent = ""
'''))
rf("fo-options-local", (FO, '''        self.options = options or Options()

        self.indent_character = self.options.indent_character
''', '''        if options is None:
            options = Options()
        self.options = options

        self.indent_character = options.indent_character
'''))
rf("fo-format-cm", (FO, '''        self._output = output
        try:
            self.on_file(source)
        finally:
            self._output = None
            self._base_indent = ""
''', '''        with self._writing_to(output):
            self.on_file(source)

    @contextmanager
    def _writing_to(self, output: TextIO) -> Generator[None, None, None]:
        self._output = output
        try:
            yield
        finally:
            self._output = None
            self._base_indent = ""
'''))
rf("fo-format-shared", (FO, '''        self._output = output
        try:
            self.on_file(source)
        finally:
            self._output = None
            self._base_indent = ""
''', '''        self._run(lambda: self.on_file(source), output)

    def _run(self, action: Callable[[], object], output: TextIO) -> None:
        self._output = output
        try:
            action()
        finally:
            self._reset()

    def _reset(self) -> None:
        self._output = None
        self._base_indent = ""
'''), (FO, '''        self._output = output
        try:
            node.visit(self)
        finally:
            self._output = None
            self._base_indent = ""
''', '''        self._run(lambda: node.visit(self), output)
'''))
rf("fo-formats-with", (FO, '''        out = StringIO()
        self.format(source, out)
        return out.getvalue()
''', '''        with StringIO() as buffer:
            self.format(source, buffer)
            return buffer.getvalue()
'''))
rf("fo-fmt-double", (FO, '''        if self.float_decimal_places < 0:
            return str(value)
        double = f"{value:.{self.float_decimal_places}f}"
        if self.float_trim_trailing_zeros and "." in double:
            return double.rstrip("0").rstrip(".")
        return double
''', '''        places = self.float_decimal_places
        if not places >= 0:
            return f"{value}"
        text = f"{value:.{places}f}"
        if "." not in text or not self.float_trim_trailing_zeros:
            return text
        text = text.rstrip("0")
        return text.rstrip(".")
'''))
rf("fo-fmt-double-format", (FO, '''        double = f"{value:.{self.float_decimal_places}f}"
        if self''', '''        double = format(value, f".{self.float_decimal_places}f")
        if self'''))
rf("fo-d-common", *[(FO, f'''        if node.is_standalone or not self.keep_non_standalone_codes:
            self._insert_base_indent()
            self._insert_extra_indent(self.d0{i}_indent)

        super().on_d0{i}(node)
        with self._command("D0{i}"):
            pass

        return node
''', f'''        self._begin_operation(node, self.d0{i}_indent)
        super().on_d0{i}(node)
        self._end_operation("D0{i}")
        return node
''') for i in "123"], (FO, '''    # D codes
''', '''    def _begin_operation(self, node: D, indent: str) -> None:
        if self.keep_non_standalone_codes and not node.is_standalone:
            return
        self._insert_base_indent()
        self._insert_extra_indent(indent)

    def _end_operation(self, code: str) -> None:
        self._write(f"{code}*")
        self._write(self.lf)

    # D codes
'''))
rf("fo-handle-g", (FO, '''        if node.is_standalone or not self.keep_non_standalone_codes:
            with self._command(cls.__qualname__):
                pass
            return

        self._write(cls.__qualname__)
''', '''        if self.keep_non_standalone_codes and not node.is_standalone:
            self._write(cls.__qualname__)
        else:
            with self._command(cls.__qualname__):
                pass
'''))
rf("fo-handle-g-opts", (FO, '''        if node.is_standalone or not self.keep_non_standalone_codes:
            with self._command(cls.__qualname__):
                pass
            return

        self._write(cls.__qualname__)
''', '''        terminate = node.is_standalone or not self.keep_non_standalone_codes
        with self._command(cls.__qualname__, asterisk=terminate, lf=terminate):
            pass
'''))
rf("fo-g54-else", (FO, '''        if self.remove_g54:
            return node
        self._handle_g(node, G54)
        return node
''', '''        if not self.remove_g54:
            self._handle_g(node, G54)
        return node
'''))
rf("fo-command-pieces", (FO, '''        self._write(cmd)
        yield
        if asterisk:
            self._write("*")
        if lf:
            self._write(self.lf)
''', '''        terminator = ("*" if asterisk else "") + (self.lf if lf else "")
        self._write(cmd)
        yield
        self._write(terminator)
'''))
rf("fo-param-lf", (FO, '''        if self.macro_split_mode in (
            MacroSplitMode.NoSplit,
            MacroSplitMode.SplitOnPrimitives,
        ):
            return ""

        if self.macro_split_mode == MacroSplitMode.SplitOnParameters:
            return self.lf + self.macro_param_indent + self.macro_body_indent

        msg''', '''        if self.macro_split_mode == MacroSplitMode.SplitOnParameters:
            return f"{self.lf}{self.macro_param_indent}{self.macro_body_indent}"

        if (
            self.macro_split_mode == MacroSplitMode.NoSplit
            or self.macro_split_mode == MacroSplitMode.SplitOnPrimitives
        ):
            return ""

        msg'''))
rf("fo-of-helper", (FO, '''            if node.a_offset is not None:
                self._write(f"A{node.a_offset}")
            if node.b_offset is not None:
                self._write(f"B{node.b_offset}")
''', '''            a = "" if node.a_offset is None else f"A{node.a_offset}"
            b = "" if node.b_offset is None else f"B{node.b_offset}"
            self._write(a + b)
'''))
rf("fo-ext-nobody", (FO, '''        with self._extended_command(f"LM{node.mirroring.value}"):
            pass
        return node
''', '''        self._write_extended(f"LM{node.mirroring.value}")
        return node

    def _write_extended(self, body: str) -> None:
        self._write(f"%{body}*%{self.lf}")
'''))
rf("fo-decrease-slice", (FO, '''            indent_delta = getattr(self, variable_name)
            if indent_delta and self._base_indent.endswith(indent_delta):
                self._base_indent = self._base_indent[: -len(indent_delta)]

            return function''', '''            delta = getattr(self, variable_name)
            indent = self._base_indent
            if delta and indent.endswith(delta):
                self._base_indent = indent[: -len(delta)]

            return function'''))
rf("fo-decrease-removesuffix", (FO, '''            indent_delta = getattr(self, variable_name)
            if indent_delta and self._base_indent.endswith(indent_delta):
                self._base_indent = self._base_indent[: -len(indent_delta)]
''', '''            self._base_indent = self._base_indent.removesuffix(
                getattr(self, variable_name)
            )
'''))
rf("fo-decor-selfarg", (FO, '''    @wraps(function)
    def _(*args: ParamT.args, **kwargs: ParamT.kwargs) -> ReturnT:
        self = args[0]
        assert isinstance(self, Formatter)
        self._insert_base_indent()
        return function(*args, **kwargs)

    return _
''', '''    @wraps(function)
    def wrapper(self: Formatter, *args: ParamT.args, **kwargs: ParamT.kwargs) -> ReturnT:
        self._insert_base_indent()
        return function(self, *args, **kwargs)

    return wrapper
'''))
rf("fo-assignment-fstring", (FO, '''        self._write(self._macro_primitive_lf)
        node.variable.visit(self)
''', '''        line_break = self._macro_primitive_lf
        if line_break:
            self._write(line_break)
        node.variable.visit(self)
'''))
