"""Behaviour-preserving rewrites of the builders."""

GB = "builder/gerber.py"
RB = "builder/rvmc.py"

rf("gb-pad-pack", (GB, '''                D03(
                    x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
                    y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
                )
            ],
            location=location,
        )
        self._add_draw(draw)
        return draw

    def _check_pad_not''', '''                D03(x=self._pack_x(location[0]), y=self._pack_y(location[1])),
            ],
            location=location,
        )
        self._add_draw(draw)
        return draw

    def _check_pad_not'''))
rf("gb-pad-unpack", (GB, '''        location = at.end_location if isinstance(at, TraceDraw) else at

        draw = PadDraw(
            state_updates=state_updates,
            draw_ops=[
                D03(
                    x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
                    y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
                )
            ],
            location=location,
        )
        self._add_draw(draw)
        return draw

    def _check_pad_not''', '''        location = at.end_location if isinstance(at, TraceDraw) else at
        flash = D03(
            x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
            y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
        )
        draw = PadDraw(
            state_updates=state_updates, draw_ops=[flash], location=location
        )
        self._add_draw(draw)
        return draw

    def _check_pad_not'''))
rf("gb-state-mirror-default", (GB, '''        if mirror_x is None:
            mirror_x = self._mirror_x

        if mirror_y is None:
            mirror_y = self._mirror_y

        mirroring = Mirroring.new(x=mirror_x, y=mirror_y)
''', '''        mirroring = Mirroring.new(
            x=self._mirror_x if mirror_x is None else mirror_x,
            y=self._mirror_y if mirror_y is None else mirror_y,
        )
'''))
rf("gb-state-plot-first", (GB, '''            if plot_mode == PlotMode.LINEAR:
                yield G01()
            elif plot_mode == PlotMode.ARC:
                yield G02()
            elif plot_mode == PlotMode.CCW_ARC:
                yield G03()
            else:
                raise NotImplementedError(plot_mode)
            self._plot_mode = plot_mode
''', '''            yield self._plot_mode_command(plot_mode)
            self._plot_mode = plot_mode

    def _plot_mode_command(self, plot_mode: PlotMode) -> Node:
        if plot_mode == PlotMode.LINEAR:
            return G01()
        if plot_mode == PlotMode.ARC:
            return G02()
        if plot_mode == PlotMode.CCW_ARC:
            return G03()
        raise NotImplementedError(plot_mode)
'''))
rf("gb-state-plot-table", (GB, '''            if plot_mode == PlotMode.LINEAR:
                yield G01()
            elif plot_mode == PlotMode.ARC:
                yield G02()
            elif plot_mode == PlotMode.CCW_ARC:
                yield G03()
            else:
                raise NotImplementedError(plot_mode)
            self._plot_mode = plot_mode
''', '''            commands = {
                PlotMode.LINEAR: G01,
                PlotMode.ARC: G02,
                PlotMode.CCW_ARC: G03,
            }
            if plot_mode not in commands:
                raise NotImplementedError(plot_mode)
            yield commands[plot_mode]()
            self._plot_mode = plot_mode
'''))
rf("gb-state-nested", (GB, '''        if (
            selected_aperture is not None
            and self._selected_aperture != selected_aperture
        ):
            self._selected_aperture = selected_aperture
            yield Dnn(is_standalone=True, aperture_id=selected_aperture)
''', '''        if selected_aperture is not None:
            if selected_aperture != self._selected_aperture:
                yield Dnn(is_standalone=True, aperture_id=selected_aperture)
                self._selected_aperture = selected_aperture
'''))
rf("gb-state-list", (GB, '''        if polarity is not None and polarity != self._polarity:
            self._polarity = polarity
            yield LP(polarity=polarity)

        if rotation is not None and rotation != self._rotation:
            self._rotation = rotation
            yield LR(rotation=rotation)
''', '''        if polarity not in (None, self._polarity):
            self._polarity = polarity
            yield LP(polarity=polarity)

        if rotation not in (None, self._rotation):
            self._rotation = rotation
            yield LR(rotation=rotation)
'''))
rf("gb-end-returns", (GB, '''        if isinstance(end, tuple):
            end_location = end
        elif isinstance(end, PadDraw):
            end_location = end.location
        elif isinstance(end, TraceDraw):
            end_location = end.begin_location
        else:
            raise NotImplementedError
        return end_location
''', '''        if isinstance(end, tuple):
            return end
        if isinstance(end, PadDraw):
            return end.location
        if not isinstance(end, TraceDraw):
            raise NotImplementedError
        return end.begin_location
'''))
rf("gb-dispatch-shared", (GB, '''        if isinstance(end, tuple):
            end_location = end
        elif isinstance(end, PadDraw):
            end_location = end.location
        elif isinstance(end, TraceDraw):
            end_location = end.begin_location
        else:
            raise NotImplementedError
        return end_location
''', '''        if isinstance(end, TraceDraw):
            return end.begin_location
        return self._point_location(end)

    def _point_location(self, point: Loc2D | PadDraw) -> Loc2D:
        if isinstance(point, tuple):
            return point
        if isinstance(point, PadDraw):
            return point.location
        raise NotImplementedError
'''), (GB, '''        if isinstance(begin, tuple):
            begin_location = begin
        elif isinstance(begin, PadDraw):
            begin_location = begin.location
        elif isinstance(begin, TraceDraw):
            begin_location = begin.end_location
        else:
            raise NotImplementedError
        return begin_location
''', '''        if isinstance(begin, TraceDraw):
            return begin.end_location
        return self._point_location(begin)
'''))
rf("gb-trace-aperture-in", (GB, '''        if (aperture := self._trace_pads.get(width)) is None:
            aperture = self.new_pad().circle(width)
            self._trace_pads[width] = aperture

        return aperture
''', '''        if width not in self._trace_pads:
            self._trace_pads[width] = self.new_pad().circle(width)

        return self._trace_pads[width]
'''))
rf("gb-trace-aperture-try", (GB, '''        if (aperture := self._trace_pads.get(width)) is None:
            aperture = self.new_pad().circle(width)
            self._trace_pads[width] = aperture

        return aperture
''', '''        try:
            return self._trace_pads[width]
        except KeyError:
            aperture = self._pad_creator.circle(width)
            self._trace_pads[width] = aperture
            return aperture
'''))
rf("gb-trace-aperture-split", (GB, '''        if (aperture := self._trace_pads.get(width)) is None:
            aperture = self.new_pad().circle(width)
            self._trace_pads[width] = aperture

        return aperture
''', '''        aperture = self._trace_pads.get(width)
        if aperture is not None:
            return aperture
        aperture = self._pad_creator.circle(diameter=width)
        self._trace_pads[width] = aperture
        return aperture
'''))
rf("gb-move-helper", *_all(GB, '''        if self._current_location != begin_location:
            draw_ops.append(
                D02(
                    x=self._pack_x(begin_location[0]),
                    y=self._pack_y(begin_location[1]),
                )
            )
''', '''        draw_ops.extend(self._move_to(begin_location))
''', (GB, '''    def _get_trace_aperture(self''', '''    def _move_to(self, location: Loc2D) -> Iterable[Node]:
        if self._current_location != location:
            yield D02(x=self._pack_x(location[0]), y=self._pack_y(location[1]))

    def _get_trace_aperture(self''')))
rf("gb-move-helper-list", *_all(GB, '''        draw_ops: list[Node] = []
        if self._current_location != begin_location:
            draw_ops.append(
                D02(
                    x=self._pack_x(begin_location[0]),
                    y=self._pack_y(begin_location[1]),
                )
            )
''', '''        draw_ops = self._move_to(begin_location)
''', (GB, '''    def _get_trace_aperture(self''', '''    def _move_to(self, location: Loc2D) -> list[Node]:
        if self._current_location == location:
            return []
        x, y = location
        return [D02(x=self._pack_x(x), y=self._pack_y(y))]

    def _get_trace_aperture(self''')))
rf("gb-code-literal", (GB, '''        commands: list[Node] = []
        commands.append(
            FS(
                zeros=Zeros.SKIP_LEADING,
                coordinate_mode=CoordinateNotation.ABSOLUTE,
                x_integral=4,
                x_decimal=6,
                y_integral=4,
                y_decimal=6,
            )
        )
        commands.append(MO(mode=UnitMode.METRIC))
        commands.extend(self._pad_creator._get_nodes())  # noqa: SLF001
        commands.append(G75())
        for draw in self._draws:
            commands.extend(draw._get_nodes())  # noqa: SLF001
        commands.append(M02())

        return GerberCode(File(nodes=commands))
''', '''        coordinate_format = FS(
            zeros=Zeros.SKIP_LEADING,
            coordinate_mode=CoordinateNotation.ABSOLUTE,
            x_integral=4,
            x_decimal=6,
            y_integral=4,
            y_decimal=6,
        )
        commands: list[Node] = [
            coordinate_format,
            MO(mode=UnitMode.METRIC),
            *self._pad_creator._get_nodes(),  # noqa: SLF001
            G75(),
            *(node for draw in self._draws for node in draw._get_nodes()),  # noqa: SLF001
            M02(),
        ]
        return GerberCode(File(nodes=commands))
'''))
rf("gb-code-generator", (GB, '''        commands: list[Node] = []
        commands.append(
            FS(
                zeros=Zeros.SKIP_LEADING,
                coordinate_mode=CoordinateNotation.ABSOLUTE,
                x_integral=4,
                x_decimal=6,
                y_integral=4,
                y_decimal=6,
            )
        )
        commands.append(MO(mode=UnitMode.METRIC))
        commands.extend(self._pad_creator._get_nodes())  # noqa: SLF001
        commands.append(G75())
        for draw in self._draws:
            commands.extend(draw._get_nodes())  # noqa: SLF001
        commands.append(M02())

        return GerberCode(File(nodes=commands))
''', '''        return GerberCode(File(nodes=list(self._get_nodes())))

    def _get_nodes(self) -> Iterable[Node]:
        yield FS(
            zeros=Zeros.SKIP_LEADING,
            coordinate_mode=CoordinateNotation.ABSOLUTE,
            x_integral=4,
            x_decimal=6,
            y_integral=4,
            y_decimal=6,
        )
        yield MO(mode=UnitMode.METRIC)
        yield from self._pad_creator._get_nodes()  # noqa: SLF001
        yield G75()
        for draw in self._draws:
            yield from draw._get_nodes()  # noqa: SLF001
        yield M02()
'''))
rf("gb-code-from-format", (GB, '''            FS(
                zeros=Zeros.SKIP_LEADING,
                coordinate_mode=CoordinateNotation.ABSOLUTE,
                x_integral=4,
                x_decimal=6,
                y_integral=4,
                y_decimal=6,
            )
        )
        commands.append(MO''', '''            FS(
                zeros=self.ZEROS,
                coordinate_mode=CoordinateNotation.ABSOLUTE,
                x_integral=self.INTEGRAL,
                x_decimal=self.DECIMAL,
                y_integral=self.INTEGRAL,
                y_decimal=self.DECIMAL,
            )
        )
        commands.append(MO'''), (GB, '''    def __init__(self) -> None:
        self._pad_creator = PadCreator(self)
''', '''    INTEGRAL = 4
    DECIMAL = 6
    ZEROS = Zeros.SKIP_LEADING

    def __init__(self) -> None:
        self._pad_creator = PadCreator(self)
'''))
rf("gb-new-pad-helper", (GB, '''        aperture_id = self._new_id()
        pad = Pad(
            aperture_id=aperture_id,
            node=ADC(
                aperture_id=aperture_id,
                diameter=diameter,
                hole_diameter=hole_diameter,
            ),
        )
        self._pads.append(pad)
        return pad
''', '''        aperture_id = self._new_id()
        return self._register_pad(
            ADC(
                aperture_id=aperture_id,
                diameter=diameter,
                hole_diameter=hole_diameter,
            )
        )

    def _register_pad(self, node: Any) -> Pad:
        pad = Pad(aperture_id=node.aperture_id, node=node)
        self._pads.append(pad)
        return pad
'''))
rf("gb-new-id", (GB, '''        self._id += 1
        return ApertureIdStr(f"D{self._id}")
''', '''        new_id = self._id + 1
        self._id = new_id
        return ApertureIdStr("D" + str(new_id))
'''))
rf("gb-pad-nodes-all", (GB, '''        yield from self._macros
        for pad in self._pads:
            yield from pad._get_nodes()  # noqa: SLF001
''', '''        nodes: list[Node] = list(self._macros)
        for pad in self._pads:
            nodes.extend(pad._get_nodes())  # noqa: SLF001
        return nodes
'''))
rf("gb-pad-nodes-chain", (GB, '''        yield from self._macros
        for pad in self._pads:
            yield from pad._get_nodes()  # noqa: SLF001
''', '''        for macro in self._macros:
            yield macro
        for pad in self._pads:
            for node in pad._get_nodes():  # noqa: SLF001
                yield node
'''))
rf("gb-aper-function", (GB, '''        self.aper_function = TA_AperFunction(
            function=(
                AperFunction(aper_function)
                if isinstance(aper_function, str)
                else aper_function
            )
        )
''', '''        if isinstance(aper_function, str):
            aper_function = AperFunction(aper_function)
        self.aper_function = TA_AperFunction(function=aper_function)
'''))
rf("gb-pad-attr-list", (GB, '''        has_any_attributes = False

        if self.aper_function is not None:
            has_any_attributes = True
            yield self.aper_function

        if self.drill_tolerance is not None:
            has_any_attributes = True
            yield self.drill_tolerance

        if self.user_attributes:
            has_any_attributes = True
            yield from self.user_attributes

        yield self.node

        if has_any_attributes:
            yield TD()
''', '''        attributes: list[Node] = []

        if self.aper_function is not None:
            attributes.append(self.aper_function)

        if self.drill_tolerance is not None:
            attributes.append(self.drill_tolerance)

        attributes.extend(self.user_attributes)

        yield from attributes
        yield self.node

        if attributes:
            yield TD()
'''))
rf("gb-pad-attr-cond", (GB, '''        has_any_attributes = False

        if self.aper_function is not None:
            has_any_attributes = True
            yield self.aper_function

        if self.drill_tolerance is not None:
            has_any_attributes = True
            yield self.drill_tolerance

        if self.user_attributes:
            has_any_attributes = True
            yield from self.user_attributes

        yield self.node

        if has_any_attributes:
            yield TD()
''', '''        for attribute in (self.aper_function, self.drill_tolerance):
            if attribute is not None:
                yield attribute

        yield from self.user_attributes
        yield self.node

        if (
            self.aper_function is not None
            or self.drill_tolerance is not None
            or self.user_attributes
        ):
            yield TD()
'''))
rf("gb-custom-create", (GB, '''        self._check_finalized()
        macro_id = self._pad_creator._new_macro_id()  # noqa: SLF001

        self._pad_creator._macros.append(  # noqa: SLF001
            AM(
                open=AMopen(name=macro_id),
                primitives=self._primitives,
                close=AMclose(),
            )
        )
        aperture_id = self._pad_creator._new_id()  # noqa: SLF001
        pad = Pad(
            aperture_id=aperture_id,
            node=ADmacro(
                aperture_id=aperture_id,
                name=macro_id,
            ),
        )
        self._pad_creator._pads.append(pad)  # noqa: SLF001
        self._finalized = True
        return pad
''', '''        self._check_finalized()
        self._finalized = True
        creator = self._pad_creator
        macro_id = creator._new_macro_id()  # noqa: SLF001
        aperture_id = creator._new_id()  # noqa: SLF001
        macro = AM(
            open=AMopen(name=macro_id),
            primitives=self._primitives,
            close=AMclose(),
        )
        pad = Pad(
            aperture_id=aperture_id,
            node=ADmacro(aperture_id=aperture_id, name=macro_id),
        )
        creator._macros.append(macro)  # noqa: SLF001
        creator._pads.append(pad)  # noqa: SLF001
        return pad
'''))
rf("gb-check-finalized", (GB, '''        if self._finalized:
            msg = "Custom pad already finalized"
            raise RuntimeError(msg)
''', '''        if not self._finalized:
            return
        raise RuntimeError("Custom pad already finalized")
'''))
rf("gb-outline-loop", (GB, '''        points_packed = [
            Point(x=Constant(constant=point[0]), y=Constant(constant=point[1]))
            for point in points
        ]
        self._primitives.append(
            Code4(
                exposure=Constant(constant=exposition),
                number_of_points=Constant(constant=len(points_packed)),
                start_x=points_packed[-1].x,
                start_y=points_packed[-1].y,
                points=points_packed,
''', '''        points_packed = []
        for x, y in points:
            points_packed.append(
                Point(x=Constant(constant=x), y=Constant(constant=y))
            )
        start = points_packed[-1]
        self._primitives.append(
            Code4(
                exposure=Constant(constant=exposition),
                number_of_points=Constant(constant=len(points_packed)),
                start_x=start.x,
                start_y=start.y,
                points=points_packed,
'''))
rf("gb-outline-len", (GB, '''                number_of_points=Constant(constant=len(points_packed)),
''', '''                number_of_points=Constant(constant=len(points)),
'''))
rf("gb-circle-inline", (GB, '''        self._check_finalized()
        self._primitives.append(
            Code1(
                exposure=Constant(constant=exposition),
                diameter=Constant(constant=diameter),
                center_x=Constant(constant=center[0]),
                center_y=Constant(constant=center[1]),
                rotation=Constant(constant=rotation),
            )
        )
''', '''        self._check_finalized()
        x, y = center
        circle = Code1(
            exposure=Constant(constant=exposition),
            diameter=Constant(constant=diameter),
            center_x=Constant(constant=x),
            center_y=Constant(constant=y),
            rotation=Constant(constant=rotation),
        )
        self._primitives.append(circle)
'''))
rf("gb-region-add", (GB, '''        self._outline.append(_LineSegment(end=to))
        self._previous_end = to
        return self
''', '''        return self._add_segment(_LineSegment(end=to))

    def _add_segment(self, segment: _OutlineSegment) -> Self:
        self._outline.append(segment)
        self._previous_end = segment.end
        return self
'''), (GB, '''        self._outline.append(
            _CwArcSegment(begin=self._previous_end, center=center, end=to)
        )
        self._previous_end = to
        return self
''', '''        return self._add_segment(
            _CwArcSegment(begin=self._previous_end, center=center, end=to)
        )
'''))
rf("gb-region-arc-merged", (GB, '''                elif isinstance(segment, _CwArcSegment):
                    if mode != PlotMode.ARC:
                        yield G02()
                        mode = PlotMode.ARC

                    yield D01(
                        x=self._builder._pack_x(segment.end[0]),  # noqa: SLF001
                        y=self._builder._pack_y(segment.end[1]),  # noqa: SLF001
                        i=self._builder._pack_i(  # noqa: SLF001
                            segment.center[0] - segment.begin[0]
                        ),
                        j=self._builder._pack_j(  # noqa: SLF001
                            segment.center[1] - segment.begin[1]
                        ),
                    )

                elif isinstance(segment, _CcwArcSegment):
                    if mode != PlotMode.CCW_ARC:
                        yield G03()
                        mode = PlotMode.CCW_ARC

                    yield D01(''', '''                elif isinstance(segment, (_CwArcSegment, _CcwArcSegment)):
                    if isinstance(segment, _CwArcSegment):
                        if mode != PlotMode.ARC:
                            yield G02()
                            mode = PlotMode.ARC
                    elif mode != PlotMode.CCW_ARC:
                        yield G03()
                        mode = PlotMode.CCW_ARC

                    yield D01('''))
rf("gb-region-builder-var", (GB, '''        def _() -> Iterable[Node]:
            aperture = self._builder._get_trace_aperture(1)  # noqa: SLF001
            yield from self._builder._create_state_updates(  # noqa: SLF001
''', '''        builder = self._builder

        def _() -> Iterable[Node]:
            aperture = builder._get_trace_aperture(1)  # noqa: SLF001
            yield from builder._create_state_updates(  # noqa: SLF001
'''), (GB, '''            self._builder._plot_mode = mode  # noqa: SLF001
            yield G37()
''', '''            builder._plot_mode = mode  # noqa: SLF001
            yield G37()
'''))
rf("gb-region-close-before", (GB, '''            last = self._outline[-1]
            if last.end != self._begin:
                self._outline.append(_LineSegment(end=self._begin))

            for segment''', '''            if self._outline[-1].end != self._begin:
                closing = _LineSegment(end=self._begin)
                self._outline.append(closing)

            for segment'''))
rf("gb-region-method", (GB, '''        def _() -> Iterable[Node]:
            aperture =''', '''        region = Region(
            nodes=list(self._get_region_nodes()),
            attributes=[],
            location=self._begin,
        )
        self._builder._add_draw(region)  # noqa: SLF001
        return region

    def _get_region_nodes(self) -> Iterable[Node]:
        if True:
            aperture ='''), (GB, '''        region = Region(nodes=list(_()), attributes=[], location=self._begin)
        self._builder._add_draw(region)  # noqa: SLF001
        return region
''', ''''''))
rf("gb-simple-draw-list", (GB, '''        yield from self.state_updates
        yield from self.attributes
        yield from self.draw_ops
        if self.attributes:
            yield TD()
''', '''        yield from [*self.state_updates, *self.attributes, *self.draw_ops]
        if len(self.attributes) > 0:
            yield TD()
'''))
rf("gb-simple-draw-early", (GB, '''        yield from self.state_updates
        yield from self.attributes
        yield from self.draw_ops
        if self.attributes:
            yield TD()
''', '''        yield from self.state_updates
        if not self.attributes:
            yield from self.draw_ops
            return
        yield from self.attributes
        yield from self.draw_ops
        yield TD()
'''))
rf("gb-dumps", (GB, '''        dst = StringIO()
        self.dump(dst)
        return dst.getvalue()
''', '''        with StringIO() as dst:
            self.dump(dst)
            return dst.getvalue()
'''))

rf("rb-locked-helper", (RB, '''        if self._is_locked:
            msg = (
                "Builder was locked by calling `get_rvmc()`."
                "You need to create a new builder."
            )
            raise LockedBuilderError(msg)

        layer =''', '''        self._check_not_locked(
            "Builder was locked by calling `get_rvmc()`."
            "You need to create a new builder."
        )
        layer ='''), (RB, '''        if self._is_locked:
            msg = (  # type: ignore[unreachable]
                "Builder was locked by calling `get_rvmc()` before it got finalized."
                "Do not call `get_rvmc()` before exiting `layer()` context manager "
                "block. You need to create a new builder."
            )
            raise LockedBuilderError(msg)

        self._commands.extend(layer.commands)
''', '''        self._check_not_locked(
            "Builder was locked by calling `get_rvmc()` before it got finalized."
            "Do not call `get_rvmc()` before exiting `layer()` context manager "
            "block. You need to create a new builder."
        )
        self._commands.extend(layer.commands)

    def _check_not_locked(self, msg: str) -> None:
        if self._is_locked:
            raise LockedBuilderError(msg)
'''))
rf("rb-init-origin", (RB, '''                origin=(
                    Vector(x=0, y=0)
                    if origin is None
                    else Vector(x=origin[0], y=origin[1])
                ),
''', '''                origin=self._origin_vector(origin),
'''), (RB, '''    def finalize(self) -> None:
''', '''    @staticmethod
    def _origin_vector(origin: Optional[tuple[float, float]]) -> Vector:
        if origin is None:
            return Vector(x=0, y=0)
        x, y = origin
        return Vector(x=x, y=y)

    def finalize(self) -> None:
'''))
rf("rb-init-from-tuple", (RB, '''                    else Vector(x=origin[0], y=origin[1])
''', '''                    else Vector.from_tuple(origin)
'''))
rf("rb-init-append", (RB, '''        self._commands: list[Command] = [
            StartLayer(
                id=self._layer_id,
                box=box,
                origin=(
                    Vector(x=0, y=0)
                    if origin is None
                    else Vector(x=origin[0], y=origin[1])
                ),
            )
        ]
''', '''        start_origin = Vector(x=0, y=0)
        if origin is not None:
            start_origin = Vector(x=origin[0], y=origin[1])
        self._commands: list[Command] = []
        self._commands.append(StartLayer(id=layer_id, box=box, origin=start_origin))
'''))
rf("rb-add-helper", (RB, '''        self._check_not_finalized_in_add()
        self._commands.append(
            Shape.new_circle(center=center, diameter=diameter, is_negative=is_negative)
        )
''', '''        self._add(
            Shape.new_circle(center=center, diameter=diameter, is_negative=is_negative)
        )

    def _add(self, command: Command) -> None:
        self._check_not_finalized_in_add()
        self._commands.append(command)
'''))
rf("rb-layer-order", (RB, '''        self._active_layer_id = LayerID(id=id_)
        layer_context = LayerBuilder(
            layer_id=self._active_layer_id, box=box, origin=origin
        )
        yield layer_context

        layer_context.finalize()
        self._commands.extend(layer_context.commands)
        self._active_layer_id = None
''', '''        layer_id = LayerID(id=id_)
        layer_context = LayerBuilder(layer_id, box, origin)
        self._active_layer_id = layer_id
        yield layer_context

        layer_context.finalize()
        self._active_layer_id = None
        self._commands.extend(layer_context.commands)
'''))
rf("rb-x-loop", (RB, '''        half_length = length / 2
        self._commands.append(
            Shape.new_line(
                start=(center[0] + half_length, center[1] + half_length),
                end=(center[0] - half_length, center[1] - half_length),
                thickness=thickness,
                is_negative=is_negative,
            )
        )
        self._commands.append(
            Shape.new_line(
                start=(center[0] - half_length, center[1] + half_length),
                end=(center[0] + half_length, center[1] - half_length),
                thickness=thickness,
                is_negative=is_negative,
            )
        )
''', '''        x, y = center
        half_length = length * 0.5
        for dx in (half_length, -half_length):
            self._commands.append(
                Shape.new_line(
                    start=(x + dx, y + half_length),
                    end=(x - dx, y - half_length),
                    thickness=thickness,
                    is_negative=is_negative,
                )
            )
'''))
rf("rb-cross-extend", (RB, '''        self._commands.append(
            Shape.new_rectangle(
                center=center, width=width, height=thickness, is_negative=is_negative
            )
        )
        self._commands.append(
            Shape.new_rectangle(
                center=center, width=thickness, height=height, is_negative=is_negative
            )
        )
''', '''        for w, h in ((width, thickness), (thickness, height)):
            self._commands.append(
                Shape.new_rectangle(
                    center=center, width=w, height=h, is_negative=is_negative
                )
            )
'''))
rf("rb-cross-rectangle", (RB, '''        self._check_not_finalized_in_add()
        self._commands.append(
            Shape.new_rectangle(
                center=center, width=width, height=thickness, is_negative=is_negative
            )
        )
        self._commands.append(
            Shape.new_rectangle(
                center=center, width=thickness, height=height, is_negative=is_negative
            )
        )
''', '''        self.rectangle(center, width, thickness, is_negative=is_negative)
        self.rectangle(center, thickness, height, is_negative=is_negative)
'''))
rf("rb-get", (RB, '''        self._is_locked = True
        return RVMC(commands=self._commands)
''', '''        rvmc = RVMC(commands=self._commands)
        self._is_locked = True
        return rvmc
'''))
