HV = "gerber/language_server/_server/hover/gerber.py"
rf("hv-block-helper", *_all(HV, '''        with self._code_block("gerber"):
            formatter.Formatter().format(File(nodes=[node]), self.hover_markdown)
''', '''        self._format_in_block(node)
''', (HV, '''    def _spec_ref(self''', '''    def _format_in_block(self, node: Node) -> None:
        with self._code_block("gerber"):
            file = File(nodes=[node])
            formatter.Formatter().format(file, self.hover_markdown)

    def _spec_ref(self''')))
rf("hv-visual-helper", *_all(HV, '''        self._sep()
        self._print_line("### Visualization")
        self._single_break()
        self._visualize_draw_op([node])
        self._single_break()
''', '''        self._visualization([node])
''', (HV, '''    def _spec_ref(self''', '''    def _visualization(self, nodes: list[Node]) -> None:
        self._sep()
        self._print_line("### Visualization")
        self._single_break()
        self._visualize_draw_op(nodes)
        self._single_break()

    def _spec_ref(self''')))
rf("hv-state-helper", *_all(HV, '''        self._sep()
        self._current_aperture()
        self._arc_interpolation_mode()
        self._plot_mode()
        self._polarity()
        self._transform()

        if self.state.current_aperture_id:
            self._aperture_attributes(self.state.current_aperture_id)

        self._object_attributes()
''', '''        self._drawing_state()
''', (HV, '''    def _spec_ref(self''', '''    def _drawing_state(self) -> None:
        self._sep()
        for describe in (
            self._current_aperture,
            self._arc_interpolation_mode,
            self._plot_mode,
            self._polarity,
            self._transform,
        ):
            describe()

        aperture_id = self.state.current_aperture_id
        if aperture_id:
            self._aperture_attributes(aperture_id)
        self._object_attributes()

    def _spec_ref(self''')))
rf("hv-attributes-helper", (HV, '''        if len(attributes) == 0:
            return

        self._sep()
        self._print_line(f"### Aperture attributes (`{aperture_id}`)")

        serializer = ToMarkdown()

        for attr in attributes.values():
            self._print("-")
            self._print_line(serializer.to_markdown(attr))

        self._print_line()
''', '''        self._attribute_list(f"### Aperture attributes (`{aperture_id}`)", attributes)

    def _attribute_list(self, title, attributes):  # type: ignore[no-untyped-def]
        if not attributes:
            return

        self._sep()
        self._print_line(title)
        serializer = ToMarkdown()
        for attribute in attributes.values():
            self._print("-")
            self._print_line(serializer.to_markdown(attribute))
        self._print_line()
'''), (HV, '''        attributes = self.state.attributes.object_attributes

        if len(attributes) == 0:
            return

        self._sep()
        self._print_line("### Object attributes")

        serializer = ToMarkdown()

        for attr in attributes.values():
            self._print("-")
            self._print_line(serializer.to_markdown(attr))

        self._print_line()
''', '''        self._attribute_list(
            "### Object attributes", self.state.attributes.object_attributes
        )
'''))
rf("hv-arc-early", (HV, '''        if self.state.plot_mode != PlotMode.LINEAR:
            self._print(
                {
                    ArcInterpolation.MULTI_QUADRANT: "`Multi-quadrant`",
                    ArcInterpolation.SINGLE_QUADRANT: "`Single-quadrant`",
                }[self.state.arc_interpolation]
            )
''', '''        if self.state.plot_mode == PlotMode.LINEAR:
            return

        if self.state.arc_interpolation == ArcInterpolation.MULTI_QUADRANT:
            self._print("`Multi-quadrant`")
        else:
            self._print("`Single-quadrant`")
'''))
rf("hv-plot-mode-const", (HV, '''        self._print(
            {
                PlotMode.LINEAR: "`Linear`",
                PlotMode.ARC: "`Clockwise Arc`",
                PlotMode.CCW_ARC: "`Counter-clockwise Arc`",
            }[self.state.plot_mode]
        )
''', '''        self._print(_PLOT_MODES[self.state.plot_mode])
'''), (HV, '''class ToMarkdown(''', '''_PLOT_MODES = {
    PlotMode.LINEAR: "`Linear`",
    PlotMode.ARC: "`Clockwise Arc`",
    PlotMode.CCW_ARC: "`Counter-clockwise Arc`",
}


class ToMarkdown('''))
rf("hv-draw-list-literal", (HV, '''        nodes.append(LM(mirroring=self.state.transform.mirroring))
        nodes.append(LS(scale=self.state.transform.scaling))
        nodes.append(LR(rotation=self.state.transform.rotation))

        if self.state.current_aperture_id is not None:
            nodes.append(
                Dnn(
                    aperture_id=self.state.current_aperture_id,
                )
            )
        nodes.extend(extra_commands)

        bytecode = compile(File(nodes=nodes))
''', '''        transform = self.state.transform
        nodes += [
            LM(mirroring=transform.mirroring),
            LS(scale=transform.scaling),
            LR(rotation=transform.rotation),
        ]
        aperture_id = self.state.current_aperture_id
        if aperture_id is not None:
            nodes.append(Dnn(aperture_id=aperture_id))

        bytecode = compile(File(nodes=[*nodes, *extra_commands]))
'''))
rf("hv-draw-apertures-loop", (HV, '''        nodes.extend(self.state.apertures.macros.values())
        nodes.extend(self.state.apertures.apertures.values())
        nodes.extend(self.state.apertures.blocks.values())
''', '''        apertures = self.state.apertures
        for definitions in (apertures.macros, apertures.apertures, apertures.blocks):
            nodes.extend(definitions.values())
'''))
rf("hv-visualize-guard", (HV, '''    def _visualize_aperture_definition(self, node: AD) -> None:
        if self.state.coordinate_format is not None:
            self._sep()
            self._print_line("### Visualization")
            self._single_break()
            self._visualize_draw_op(
                cast(
                    "list[Node]",
                    [
                        node,
                        Dnn(aperture_id=node.aperture_id),
                        D03(
                            x=CoordinateX(
                                value=self.state.coordinate_format.pack_x(0.0)
                            ),
                            y=CoordinateY(
                                value=self.state.coordinate_format.pack_y(0.0)
                            ),
                        ),
                    ],
                )
            )
            self._single_break()
''', '''    def _visualize_aperture_definition(self, node: AD) -> None:
        fmt = self.state.coordinate_format
        if fmt is None:
            return

        flash = D03(
            x=CoordinateX(value=fmt.pack_x(0.0)), y=CoordinateY(value=fmt.pack_y(0.0))
        )
        self._sep()
        self._print_line("### Visualization")
        self._single_break()
        self._visualize_draw_op([node, Dnn(aperture_id=node.aperture_id), flash])
        self._single_break()
'''))
rf("hv-fields-helper", *_all(HV, '''", ".join(f"`{f}`" for f in node.fields)''', '''_quote_all(node.fields)''', (HV, '''class ToMarkdown(''', '''def _quote_all(values) -> str:  # type: ignore[no-untyped-def]
    return ", ".join(f"`{value}`" for value in values)


class ToMarkdown(''')))
rf("hv-ta-function-early", (HV, '''        function = node.function.value if node.function else "<missing>"
        fields_md = ", ".join(f"`{f}`" for f in node.fields)
        self.markdown.write(f"`{node.attribute_name}`: `{function}`")
        if node.fields:
            self.markdown.write(f", ({fields_md})")

        return node
''', '''        function = "<missing>"
        if node.function:
            function = node.function.value

        text = f"`{node.attribute_name}`: `{function}`"
        if node.fields:
            fields_md = ", ".join(f"`{f}`" for f in node.fields)
            text += f", ({fields_md})"
        self.markdown.write(text)
        return node
'''))
rf("hv-macro-params", (HV, '''        if node.params:
            for i, param in enumerate(node.params, start=1):
                self._print(f"\\n - parameter `${i}`: `{param}`")
''', '''        for i, param in enumerate(node.params or (), start=1):
            self._print(f"\\n - parameter `${i}`: `{param}`")
'''))
rf("hv-macro-params-plus1", (HV, '''        if node.params:
            for i, param in enumerate(node.params, start=1):
                self._print(f"\\n - parameter `${i}`: `{param}`")
''', '''        if node.params is not None:
            for index, param in enumerate(node.params):
                self._print(f"\\n - parameter `${index + 1}`: `{param}`")
'''))
rf("hv-adc-fields-loop", (HV, '''        self._print("\\n - standard template: `Circle`")
        self._print(f"\\n - diameter: `{node.diameter}`")
        self._print(f"\\n - hole_diameter: `{node.hole_diameter}`")
''', '''        for name, value in (
            ("standard template", "Circle"),
            ("diameter", node.diameter),
            ("hole_diameter", node.hole_diameter),
        ):
            self._print(f"\\n - {name}: `{value}`")
'''))
rf("hv-ad-tail-helper", *_all(HV, '''        self._aperture_attributes(node.aperture_id)
        self._visualize_aperture_definition(node)

        self._spec_ref(spec.''', '''        self._finish_definition(node, spec.''', (HV, '''    def _spec_ref(self''', '''    def _finish_definition(self, node: AD, reference: str) -> None:
        self._aperture_attributes(node.aperture_id)
        self._visualize_aperture_definition(node)
        self._spec_ref(reference)

    def _spec_ref(self''')))
rf("hv-code2-loop", (HV, '''        self._print("\\n - exposure: `")
        fmt.format_node(node.exposure, self.hover_markdown)

        self._print("`\\n - width: `")
        fmt.format_node(node.width, self.hover_markdown)

        self._print("`\\n - start_x: `")
        fmt.format_node(node.start_x, self.hover_markdown)
''', '''        for label, value in (
            ("\\n - exposure: `", node.exposure),
            ("`\\n - width: `", node.width),
            ("`\\n - start_x: `", node.start_x),
        ):
            self._print(label)
            fmt.format_node(value, self.hover_markdown)
'''))
rf("hv-code1-rotation", (HV, '''        if node.rotation is not None:
            fmt.format_node(node.rotation, self.hover_markdown)
            self._print("°`\\n")
        else:
            self._print_line("None`")
''', '''        if node.rotation is None:
            self._print_line("None`")
        else:
            fmt.format_node(node.rotation, self.hover_markdown)
            self._print("°`\\n")
'''))
rf("hv-xy-locals", (HV, '''        x_value = fmt.unpack_x(x.value) if x else default_x
        y_value = fmt.unpack_y(y.value) if y else default_y

        self._sep()
''', '''        x_value, y_value = default_x, default_y
        if x:
            x_value = fmt.unpack_x(x.value)
        if y:
            y_value = fmt.unpack_y(y.value)

        self._sep()
'''))
rf("hv-limited-break", (HV, '''                    if source_info.end_location > self.max_location:
                        raise ProgramStop(M02())

                    try:
                        command.visit(self)
                    except Exception as e:
                        if self.on_exception(command, e):
                            raise
''', '''                    if source_info.end_location > self.max_location:
                        break

                    try:
                        command.visit(self)
                    except Exception as e:
                        if self.on_exception(command, e):
                            raise
'''))
