VM = "vm/vm.py"; PV = "vm/pillow/vm.py"; BG = "builder/gerber.py"

rf("vm-box-fold-helper", (VM, '''        commands = deferred_layer.commands
        box: Optional[Box] = None

        if len(commands) == 0:
            return None

        cmd = commands[0]

        if isinstance(cmd, Shape):
            box = cmd.outer_box

        elif isinstance(cmd, PasteLayer):
            layer = self._layers[cmd.source_layer_id]
            assert isinstance(layer, EagerLayer)
            box = layer.box + cmd.center - layer.origin

        else:
            raise NotImplementedError(type(cmd))

        for cmd in commands[1:]:
            if isinstance(cmd, Shape):
                box = box + cmd.outer_box

            elif isinstance(cmd, PasteLayer):
                layer = self._layers[cmd.source_layer_id]
                assert isinstance(layer, EagerLayer)
                box = box + (layer.box + cmd.center - layer.origin)

            else:
                raise NotImplementedError(type(cmd))

        return box
''', '''        commands = deferred_layer.commands
        if not commands:
            return None

        box = self._command_box(commands[0])
        for cmd in commands[1:]:
            box = box + self._command_box(cmd)
        return box

    def _command_box(self, cmd: DrawCmdT) -> Box:
        if isinstance(cmd, Shape):
            return cmd.outer_box

        if isinstance(cmd, PasteLayer):
            layer = self._layers[cmd.source_layer_id]
            assert isinstance(layer, EagerLayer)
            return layer.box + cmd.center - layer.origin

        raise NotImplementedError(type(cmd))
'''))

rf("vm-box-single-loop", (VM, '''        box: Optional[Box] = None

        if len(commands) == 0:
            return None

        cmd = commands[0]

        if isinstance(cmd, Shape):
            box = cmd.outer_box

        elif isinstance(cmd, PasteLayer):
            layer = self._layers[cmd.source_layer_id]
            assert isinstance(layer, EagerLayer)
            box = layer.box + cmd.center - layer.origin

        else:
            raise NotImplementedError(type(cmd))

        for cmd in commands[1:]:
            if isinstance(cmd, Shape):
                box = box + cmd.outer_box

            elif isinstance(cmd, PasteLayer):
                layer = self._layers[cmd.source_layer_id]
                assert isinstance(layer, EagerLayer)
                box = box + (layer.box + cmd.center - layer.origin)

            else:
                raise NotImplementedError(type(cmd))

        return box
''', '''        box: Optional[Box] = None

        for cmd in commands:
            if isinstance(cmd, Shape):
                cmd_box = cmd.outer_box

            elif isinstance(cmd, PasteLayer):
                layer = self._layers[cmd.source_layer_id]
                assert isinstance(layer, EagerLayer)
                cmd_box = layer.box + cmd.center - layer.origin

            else:
                raise NotImplementedError(type(cmd))

            box = cmd_box if box is None else box + cmd_box

        return box
'''))

rf("vm-on-start-layer-common-tail", (VM, '''        if command.box is None:
            layer = self.create_deferred_layer(command.id, command.origin)
            self.set_layer(command.id, layer)
            self.set_deferred_handlers()

        else:
            layer = self.create_eager_layer(command.id, command.origin, command.box)
            self.set_layer(command.id, layer)
            self.set_eager_handlers()

        self.push_layer_to_stack(layer)
''', '''        layer_id = command.id
        is_auto_sized = command.box is None
        layer = (
            self.create_deferred_layer(layer_id, command.origin)
            if is_auto_sized
            else self.create_eager_layer(layer_id, command.origin, command.box)
        )
        self.set_layer(layer_id, layer)
        if is_auto_sized:
            self.set_deferred_handlers()
        else:
            self.set_eager_handlers()

        self.push_layer_to_stack(layer)
'''))

rf("vm-end-layer-extract", (VM, '''            box = self._calculate_deferred_layer_box(top_layer)
            if box is None:
                if self._fail_on_empty_auto_sized_layer:
                    raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)

            else:
                new_layer = self.create_eager_layer(
                    top_layer.layer_id, top_layer.origin, box
                )
                self.set_layer(top_layer.layer_id, new_layer)

                self.push_layer_to_stack(new_layer)
                self.set_eager_handlers()
                self._eval_deferred_commands(top_layer.commands)
                self.pop_layer_from_stack()

        else:
            raise NotImplementedError(type(top_layer))
''', '''            self._finish_deferred_layer(top_layer)

        else:
            raise NotImplementedError(type(top_layer))
'''), (VM, '''    def _calculate_deferred_layer_box(''', '''    def _finish_deferred_layer(self, top_layer: DeferredLayer) -> None:
        box = self._calculate_deferred_layer_box(top_layer)
        if box is None:
            if self._fail_on_empty_auto_sized_layer:
                raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
            return

        layer_id = top_layer.layer_id
        new_layer = self.create_eager_layer(layer_id, top_layer.origin, box)
        self.set_layer(layer_id, new_layer)
        self.push_layer_to_stack(new_layer)
        self.set_eager_handlers()
        self._eval_deferred_commands(top_layer.commands)
        self.pop_layer_from_stack()

    def _calculate_deferred_layer_box('''))

rf("vm-get-layer-try", (VM, '''        if layer_id not in self._layers:
            raise LayerNotFoundError(layer_id)

        return self._layers[layer_id]
''', '''        try:
            return self._layers[layer_id]
        except KeyError as e:
            raise LayerNotFoundError(layer_id) from e
'''))
rf("vm-get-layer-get", (VM, '''        if layer_id not in self._layers:
            raise LayerNotFoundError(layer_id)

        return self._layers[layer_id]
''', '''        layer = self._layers.get(layer_id)
        if layer is None:
            raise LayerNotFoundError(layer_id)

        return layer
'''))
rf("pillow-save-table", (PV, '''        if file_format.casefold() == "bmp".casefold():
            self.save_bmp(destination, color, **kwargs)
        elif file_format.casefold() == "png".casefold():
            self.save_png(destination, color, **kwargs)
        elif file_format.casefold() == "jpeg".casefold():
            self.save_jpeg(destination, color, **kwargs)
        elif file_format.casefold() == "tiff".casefold():
            self.save_tiff(destination, color, **kwargs)
        elif file_format.casefold() == "webp".casefold():
            self.save_webp(destination, color, **kwargs)
        else:
            raise NotImplementedError(file_format)
''', '''        savers = {
            "bmp": self.save_bmp,
            "png": self.save_png,
            "jpeg": self.save_jpeg,
            "tiff": self.save_tiff,
            "webp": self.save_webp,
        }
        saver = savers.get(file_format.casefold())
        if saver is None:
            raise NotImplementedError(file_format)
        saver(destination, color, **kwargs)
'''))
rf("pillow-save-common", (PV, '''        folded = 1''', '''''') ) if False else None
rf("pillow-on-shape-dedupe", (PV, '''            if isinstance(segment, Line):
                start = (segment.start.x, segment.start.y)
                if len(points) == 0 or points[-1] != start:
                    points.append(
                        (segment.start.x, segment.start.y),
                    )
                points.append(
                    (segment.end.x, segment.end.y),
                )
            elif isinstance(segment, Arc):
                start = (segment.start.x, segment.start.y)
                if len(points) == 0 or points[-1] != start:
                    points.append(
                        (segment.start.x, segment.start.y),
                    )
                points.extend(self._calculate_arc_points(segment))
                points.append(
                    (segment.end.x, segment.end.y),
                )
            else:
                raise NotImplementedError
''', '''            if not isinstance(segment, (Line, Arc)):
                raise NotImplementedError

            start = (segment.start.x, segment.start.y)
            if not points or points[-1] != start:
                points.append(start)
            if isinstance(segment, Arc):
                points.extend(self._calculate_arc_points(segment))
            points.append((segment.end.x, segment.end.y))
'''))
rf("pillow-arc-generator-params", (PV, '''        if start_angle <= end_angle:
            if command.clockwise:
                end_angle -= FULL_ANGLE_DEGREES
                angle_generator = self._generate_arc_angles(
                    start_angle, end_angle, angle_delta, *DECREASE_ANGLE
                )
            else:
                angle_generator = self._generate_arc_angles(
                    start_angle, end_angle, angle_delta, *INCREASE_ANGLE
                )
        elif command.clockwise:
            angle_generator = self._generate_arc_angles(
                start_angle, end_angle, angle_delta, *DECREASE_ANGLE
            )
        else:
            end_angle += FULL_ANGLE_DEGREES
            angle_generator = self._generate_arc_angles(
                start_angle, end_angle, angle_delta, *INCREASE_ANGLE
            )
''', '''        if command.clockwise:
            if start_angle <= end_angle:
                end_angle -= FULL_ANGLE_DEGREES
            direction = DECREASE_ANGLE
        else:
            if start_angle > end_angle:
                end_angle += FULL_ANGLE_DEGREES
            direction = INCREASE_ANGLE

        angle_generator = self._generate_arc_angles(
            start_angle, end_angle, angle_delta, *direction
        )
'''))
rf("pillow-offset-helper", (PV, '''        layer = self.layer
        layer_box = layer.box
        x_offset = layer_box.center.x - layer_box.width / 2
        y_offset = layer_box.center.y - layer_box.height / 2

        layer.draw.polygon(
            [
                (
                    self.to_pixel(x - x_offset),
                    self.to_pixel(y - y_offset),
                )
                for (x, y) in points
            ],
            fill=self.get_color(is_negative=is_negative),
            width=0,
        )
''', '''        layer = self.layer
        x_offset, y_offset = self._layer_offset(layer)
        pixels = [
            (self.to_pixel(x - x_offset), self.to_pixel(y - y_offset))
            for x, y in points
        ]
        color = self.get_color(is_negative=is_negative)
        layer.draw.polygon(pixels, fill=color, width=0)

    def _layer_offset(self, layer: PillowEagerLayer) -> tuple[float, float]:
        box = layer.box
        return (box.center.x - box.width / 2, box.center.y - box.height / 2)
'''), (PV, '''        layer = self.layer
        layer_box = layer.box
        x_offset = layer_box.center.x - layer_box.width / 2
        y_offset = layer_box.center.y - layer_box.height / 2

        layer.image.paste(''', '''        layer = self.layer
        x_offset, y_offset = self._layer_offset(layer)

        layer.image.paste('''))
rf("pillow-paste-module-fn", (PV, '''        if command.is_negative:
            image = ImageOps.invert(source_layer.image.convert("L")).convert("1")
        else:
            image = source_layer.image
''', '''        image = _negate(source_layer.image) if command.is_negative else source_layer.image
'''), (PV, '''class PillowEagerLayer(EagerLayer):''', '''def _negate(image: Image.Image) -> Image.Image:
    """Swap foreground and background."""
    grayscale = image.convert("L")
    return ImageOps.invert(grayscale).convert("1")


class PillowEagerLayer(EagerLayer):'''))
rf("pillow-run-guard", (PV, '''        layer = self._layers.get(self.MAIN_LAYER_ID, None)

        if layer is None:
            if self._fail_on_empty_auto_sized_layer:
                raise NoMainLayerError
            return PillowResult(
                Box(min_x=0, min_y=0, max_x=0, max_y=0), Image.new("1", (1, 1), 0)
            )

        assert isinstance(layer, PillowEagerLayer)
        return PillowResult(
            layer.box, layer.image.transpose(Image.Transpose.FLIP_TOP_BOTTOM)
        )
''', '''        layer = self._layers.get(self.MAIN_LAYER_ID)

        if layer is not None:
            assert isinstance(layer, PillowEagerLayer)
            flipped = layer.image.transpose(Image.Transpose.FLIP_TOP_BOTTOM)
            return PillowResult(layer.box, flipped)

        if self._fail_on_empty_auto_sized_layer:
            raise NoMainLayerError

        empty_box = Box(min_x=0, min_y=0, max_x=0, max_y=0)
        return PillowResult(empty_box, Image.new("1", (1, 1), 0))
'''))

_ARC = '''        aperture = self._get_trace_aperture(width)

        begin_location = self._dispatch_begin_location(begin)
        end_location = self._dispatch_end_location(end)

        state_updates = list(
            self._create_state_updates(
                selected_aperture=aperture.aperture_id,
                polarity=Polarity.Dark,
                rotation=0.0,
                mirror_x=False,
                mirror_y=False,
                scale=1.0,
                plot_mode=PlotMode.%s,
            )
        )

        draw_ops: list[Node] = []
        if self._current_location != begin_location:
            draw_ops.append(
                D02(
                    x=self._pack_x(begin_location[0]),
                    y=self._pack_y(begin_location[1]),
                )
            )

        draw_ops.append(
            D01(
                x=self._pack_x(end_location[0]),
                y=self._pack_y(end_location[1]),
                i=self._pack_i(center[0] - begin_location[0]),
                j=self._pack_j(center[1] - begin_location[1]),
            )
        )

        draw = ArcTraceDraw(
            state_updates=state_updates,
            draw_ops=draw_ops,
            begin_location=begin_location,
            end_location=end_location,
            center_location=center,
            is_clockwise=%s,
        )
        self._add_draw(draw)
        return draw
'''
rf("builder-arc-shared", (BG, _ARC % ("ARC", "True"), '''        return self._add_arc_trace(width, begin, end, center, is_clockwise=True)

    def _add_arc_trace(
        self,
        width: float,
        begin: Loc2D | PadDraw | TraceDraw,
        end: Loc2D | PadDraw | TraceDraw,
        center: Loc2D,
        *,
        is_clockwise: bool,
    ) -> TraceDraw:
        aperture = self._get_trace_aperture(width)

        begin_location = self._dispatch_begin_location(begin)
        end_location = self._dispatch_end_location(end)

        state_updates = list(
            self._create_state_updates(
                selected_aperture=aperture.aperture_id,
                polarity=Polarity.Dark,
                rotation=0.0,
                mirror_x=False,
                mirror_y=False,
                scale=1.0,
                plot_mode=PlotMode.ARC if is_clockwise else PlotMode.CCW_ARC,
            )
        )

        draw_ops: list[Node] = []
        if self._current_location != begin_location:
            x, y = begin_location
            draw_ops.append(D02(x=self._pack_x(x), y=self._pack_y(y)))

        draw_ops.append(
            D01(
                x=self._pack_x(end_location[0]),
                y=self._pack_y(end_location[1]),
                i=self._pack_i(center[0] - begin_location[0]),
                j=self._pack_j(center[1] - begin_location[1]),
            )
        )

        draw = ArcTraceDraw(
            state_updates=state_updates,
            draw_ops=draw_ops,
            begin_location=begin_location,
            end_location=end_location,
            center_location=center,
            is_clockwise=is_clockwise,
        )
        self._add_draw(draw)
        return draw
'''), (BG, _ARC % ("CCW_ARC", "False"), '''        return self._add_arc_trace(width, begin, end, center, is_clockwise=False)
'''))
rf("builder-trace-prepare", (BG, '''        draw_ops: list[Node] = []
        if self._current_location != begin_location:
            draw_ops.append(
                D02(
                    x=self._pack_x(begin_location[0]),
                    y=self._pack_y(begin_location[1]),
                )
            )

        draw_ops.append(
            D01(
                x=self._pack_x(end_location[0]),
                y=self._pack_y(end_location[1]),
            )
        )

        draw = TraceDraw(''', '''        draw_ops: list[Node] = [
            *self._move_to(begin_location),
            D01(x=self._pack_x(end_location[0]), y=self._pack_y(end_location[1])),
        ]

        draw = TraceDraw('''), (BG, '''    def _dispatch_end_location(self''', '''    def _move_to(self, location: Loc2D) -> Iterable[Node]:
        if self._current_location == location:
            return
        x, y = location
        yield D02(x=self._pack_x(x), y=self._pack_y(y))

    def _dispatch_end_location(self'''))
rf("builder-state-updates-dict", (BG, '''            if plot_mode == PlotMode.LINEAR:
                yield G01()
            elif plot_mode == PlotMode.ARC:
                yield G02()
            elif plot_mode == PlotMode.CCW_ARC:
                yield G03()
            else:
                raise NotImplementedError(plot_mode)
            self._plot_mode = plot_mode
''', '''            modes = {
                PlotMode.LINEAR: G01,
                PlotMode.ARC: G02,
                PlotMode.CCW_ARC: G03,
            }
            if plot_mode not in modes:
                raise NotImplementedError(plot_mode)
            yield modes[plot_mode]()
            self._plot_mode = plot_mode
'''))
rf("builder-pads-register", (BG, '''        aperture_id = self._new_id()
        pad = Pad(
            aperture_id=aperture_id,
            node=ADC(
                aperture_id=aperture_id,
                diameter=diameter,
                hole_diameter=hole_diameter,
            ),
        )
        self._pads.append(pad)
        return pad
''', '''        aperture_id = self._new_id()
        return self._register(
            aperture_id,
            ADC(
                aperture_id=aperture_id,
                diameter=diameter,
                hole_diameter=hole_diameter,
            ),
        )

    def _register(self, aperture_id: ApertureIdStr, node: Node) -> Pad:
        pad = Pad(aperture_id=aperture_id, node=node)
        self._pads.append(pad)
        return pad
'''), (BG, '''        pad = Pad(
            aperture_id=aperture_id,
            node=ADR(
                aperture_id=aperture_id,
                width=width,
                height=height,
                hole_diameter=hole_diameter,
            ),
        )
        self._pads.append(pad)
        return pad
''', '''        node = ADR(
            aperture_id=aperture_id,
            width=width,
            height=height,
            hole_diameter=hole_diameter,
        )
        return self._register(aperture_id, node)
'''))
rf("builder-pad-nodes-list", (BG, '''        has_any_attributes = False

        if self.aper_function is not None:
            has_any_attributes = True
            yield self.aper_function

        if self.drill_tolerance is not None:
            has_any_attributes = True
            yield self.drill_tolerance

        if self.user_attributes:
            has_any_attributes = True
            yield from self.user_attributes

        yield self.node

        if has_any_attributes:
            yield TD()
''', '''        attributes: list[Node] = []

        if self.aper_function is not None:
            attributes.append(self.aper_function)

        if self.drill_tolerance is not None:
            attributes.append(self.drill_tolerance)

        attributes.extend(self.user_attributes)

        yield from attributes
        yield self.node
        if attributes:
            yield TD()
'''))
rf("builder-getcode-literal", (BG, '''        commands: list[Node] = []
        commands.append(
            FS(
                zeros=Zeros.SKIP_LEADING,
                coordinate_mode=CoordinateNotation.ABSOLUTE,
                x_integral=4,
                x_decimal=6,
                y_integral=4,
                y_decimal=6,
            )
        )
        commands.append(MO(mode=UnitMode.METRIC))
        commands.extend(self._pad_creator._get_nodes())  # noqa: SLF001
        commands.append(G75())
        for draw in self._draws:
            commands.extend(draw._get_nodes())  # noqa: SLF001
        commands.append(M02())

        return GerberCode(File(nodes=commands))
''', '''        draw_nodes = [node for draw in self._draws for node in draw._get_nodes()]
        nodes: list[Node] = [
            FS(
                zeros=Zeros.SKIP_LEADING,
                coordinate_mode=CoordinateNotation.ABSOLUTE,
                x_integral=4,
                x_decimal=6,
                y_integral=4,
                y_decimal=6,
            ),
            MO(mode=UnitMode.METRIC),
            *self._pad_creator._get_nodes(),
            G75(),
            *draw_nodes,
            M02(),
        ]
        return GerberCode(File(nodes=nodes))
'''))
rf("builder-trace-aperture-in", (BG, '''        if (aperture := self._trace_pads.get(width)) is None:
            aperture = self.new_pad().circle(width)
            self._trace_pads[width] = aperture

        return aperture
''', '''        if width not in self._trace_pads:
            self._trace_pads[width] = self.new_pad().circle(width)

        return self._trace_pads[width]
'''))
rf("builder-dumps-with", (BG, '''        dst = StringIO()
        self.dump(dst)
        return dst.getvalue()
''', '''        with StringIO() as dst:
            self.dump(dst)
            return dst.getvalue()
'''))

ST = "gerber/ast/state_tracking_visitor.py"

rf("st-current-aperture-loop", (ST, '''        if self.current_aperture_id in self.apertures.apertures:
            return self.apertures.apertures[self.current_aperture_id]

        if self.current_aperture_id in self.apertures.blocks:
            return self.apertures.blocks[self.current_aperture_id]

        raise ApertureNotFoundError(self.current_aperture_id)
''', '''        for storage in (self.apertures.apertures, self.apertures.blocks):
            if self.current_aperture_id in storage:
                return storage[self.current_aperture_id]

        raise ApertureNotFoundError(self.current_aperture_id)
'''))

rf("st-current-aperture-get", (ST, '''        if self.current_aperture_id in self.apertures.apertures:
            return self.apertures.apertures[self.current_aperture_id]

        if self.current_aperture_id in self.apertures.blocks:
            return self.apertures.blocks[self.current_aperture_id]

        raise ApertureNotFoundError(self.current_aperture_id)
''', '''        aperture_id = self.current_aperture_id
        aperture = self.apertures.apertures.get(aperture_id)
        if aperture is None:
            aperture = self.apertures.blocks.get(aperture_id)
        if aperture is None:
            raise ApertureNotFoundError(aperture_id)
        return aperture
'''))

rf("st-current-aperture-try", (ST, '''        if self.current_aperture_id in self.apertures.apertures:
            return self.apertures.apertures[self.current_aperture_id]

        if self.current_aperture_id in self.apertures.blocks:
            return self.apertures.blocks[self.current_aperture_id]

        raise ApertureNotFoundError(self.current_aperture_id)
''', '''        if self.current_aperture_id in self.apertures.apertures:
            return self.apertures.apertures[self.current_aperture_id]

        try:
            return self.apertures.blocks[self.current_aperture_id]
        except KeyError:
            raise ApertureNotFoundError(self.current_aperture_id) from None
'''))

rf("st-coord-helper", (ST, '''        coordinate = self.state.coordinate_x
        if coordinate is None:
            return self.state.current_x
        return coordinate
''', '''        return _first_given(self.state.coordinate_x, self.state.current_x)
'''), (ST, '''        coordinate = self.state.coordinate_y
        if coordinate is None:
            return self.state.current_y
        return coordinate
''', '''        return _first_given(self.state.coordinate_y, self.state.current_y)
'''), (ST, '''        coordinate = self.state.coordinate_i
        if coordinate is None:
            return 0.0
        return coordinate
''', '''        return _first_given(self.state.coordinate_i, 0.0)
'''), (ST, '''class ProgramStop(Exception):''', '''def _first_given(value: Optional[Double], default: Double) -> Double:
    return default if value is None else value


class ProgramStop(Exception):'''))

rf("st-update-coords-prop", (ST, '''        if self.state.coordinate_x is not None:
            self.state.current_x = self.state.coordinate_x
        if self.state.coordinate_y is not None:
            self.state.current_y = self.state.coordinate_y
''', '''        self.state.current_x = self.coordinate_x
        self.state.current_y = self.coordinate_y
'''))

rf("st-update-coords-loop", (ST, '''        if self.state.coordinate_x is not None:
            self.state.current_x = self.state.coordinate_x
        if self.state.coordinate_y is not None:
            self.state.current_y = self.state.coordinate_y
''', '''        for axis in ("x", "y"):
            value = getattr(self.state, f"coordinate_{axis}")
            if value is not None:
                setattr(self.state, f"current_{axis}", value)
'''))

rf("st-store-attrs-helper", (ST, '''        self.state.apertures.blocks[node.open.aperture_id] = node
        self.state.apertures.per_aperture_attributes[node.open.aperture_id] = (
            self.state.attributes.aperture_attributes.copy()
        )
        return node
''', '''        self.state.apertures.blocks[node.open.aperture_id] = node
        self._freeze_attributes(node.open.aperture_id)
        return node

    def _freeze_attributes(self, aperture_id: ApertureIdStr) -> None:
        attributes = self.state.attributes.aperture_attributes
        self.state.apertures.per_aperture_attributes[aperture_id] = dict(attributes)
'''), (ST, '''        self.state.apertures.apertures[node.aperture_id] = node
        self.state.apertures.per_aperture_attributes[node.aperture_id] = (
            self.state.attributes.aperture_attributes.copy()
        )
''', '''        self.state.apertures.apertures[node.aperture_id] = node
        self._freeze_attributes(node.aperture_id)
'''))

rf("st-td-loop", (ST, '''        if node.name is None:
            self.state.attributes.aperture_attributes.clear()
            self.state.attributes.object_attributes.clear()
            return node

        self.state.attributes.aperture_attributes.pop(node.name, None)
        self.state.attributes.object_attributes.pop(node.name, None)
        return node
''', '''        attributes = self.state.attributes
        for mapping in (attributes.aperture_attributes, attributes.object_attributes):
            if node.name is None:
                mapping.clear()
            else:
                mapping.pop(node.name, None)
        return node
'''))

rf("st-td-del", (ST, '''        self.state.attributes.aperture_attributes.pop(node.name, None)
        self.state.attributes.object_attributes.pop(node.name, None)
        return node
''', '''        if node.name in self.state.attributes.aperture_attributes:
            del self.state.attributes.aperture_attributes[node.name]
        if node.name in self.state.attributes.object_attributes:
            del self.state.attributes.object_attributes[node.name]
        return node
'''))

DNN = '''        aperture = self.state.current_aperture
        handler: Any

        if isinstance(aperture, ADC):
            handler = self.on_flash_circle
        elif isinstance(aperture, ADR):
            handler = self.on_flash_rectangle
        elif isinstance(aperture, ADO):
            handler = self.on_flash_obround
        elif isinstance(aperture, ADP):
            handler = self.on_flash_polygon
        elif isinstance(aperture, ADmacro):
            handler = self.on_flash_macro
        elif isinstance(aperture, AB):
            handler = self.on_flash_block
        elif isinstance(aperture, AD):
            raise DirectADHandlerDispatchNotSupportedError

        self._on_d03_handler = handler
        return node
'''
rf("st-dnn-helper", (ST, DNN, '''        self._on_d03_handler = self._select_flash_handler(self.state.current_aperture)
        return node

    def _select_flash_handler(self, aperture: AD | AB) -> Any:
        if isinstance(aperture, ADC):
            return self.on_flash_circle
        if isinstance(aperture, ADR):
            return self.on_flash_rectangle
        if isinstance(aperture, ADO):
            return self.on_flash_obround
        if isinstance(aperture, ADP):
            return self.on_flash_polygon
        if isinstance(aperture, ADmacro):
            return self.on_flash_macro
        if isinstance(aperture, AB):
            return self.on_flash_block
        raise DirectADHandlerDispatchNotSupportedError
'''))
rf("st-dnn-table", (ST, DNN, '''        aperture = self.state.current_aperture
        handlers: list[tuple[type, Any]] = [
            (ADC, self.on_flash_circle),
            (ADR, self.on_flash_rectangle),
            (ADO, self.on_flash_obround),
            (ADP, self.on_flash_polygon),
            (ADmacro, self.on_flash_macro),
            (AB, self.on_flash_block),
        ]
        for aperture_type, handler in handlers:
            if isinstance(aperture, aperture_type):
                self._on_d03_handler = handler
                return node

        raise DirectADHandlerDispatchNotSupportedError
'''))
rf("st-plot-mode-helper", (ST, '''        super().on_g01(node)
        self.state.plot_mode = PlotMode.LINEAR
        self._dispatch_d01_handler()
        return node
''', '''        super().on_g01(node)
        self._set_plot_mode(PlotMode.LINEAR)
        return node

    def _set_plot_mode(self, mode: PlotMode) -> None:
        self.state.plot_mode = mode
        self._dispatch_d01_handler()
'''), (ST, '''        self.state.plot_mode = PlotMode.ARC
        self._dispatch_d01_handler()
''', '''        self._set_plot_mode(PlotMode.ARC)
'''), (ST, '''        self.state.plot_mode = PlotMode.CCW_ARC
        self._dispatch_d01_handler()
''', '''        self._set_plot_mode(PlotMode.CCW_ARC)
'''))
rf("st-dispatch-shared", (ST, '''        self._on_d01_handler = self._plot_mode_to_in_region_d01_handler[
            self.state.plot_mode
        ][self.state.arc_interpolation]
''', '''        self._use_table(self._plot_mode_to_in_region_d01_handler)

    def _use_table(self, table: Any) -> None:
        by_interpolation = table[self.state.plot_mode]
        self._on_d01_handler = by_interpolation[self.state.arc_interpolation]
'''), (ST, '''        self._on_d01_handler = self._plot_mode_to_d01_handler[self.state.plot_mode][
            self.state.arc_interpolation
        ]
''', '''        self._use_table(self._plot_mode_to_d01_handler)
'''))
rf("st-region-mode-flag", (ST, '''        self.state.is_region = True
        self._dispatch_d01_handler = self._dispatch_d01_handler_in_region
        self._dispatch_d01_handler()
''', '''        self._switch_region_mode(is_region=True)

    def _switch_region_mode(self, *, is_region: bool) -> None:
        self.state.is_region = is_region
        self._dispatch_d01_handler = (
            self._dispatch_d01_handler_in_region
            if is_region
            else self._dispatch_d01_handler_non_region
        )
        self._dispatch_d01_handler()
'''), (ST, '''        self.state.is_region = False
        self._dispatch_d01_handler = self._dispatch_d01_handler_non_region
        self._dispatch_d01_handler()
''', '''        self._switch_region_mode(is_region=False)
'''))
rf("st-g90-helper", (ST, '''        super().on_g90(node)
        if self.state.coordinate_format is None:
            self.state.coordinate_format = CoordinateFormat()

        self.state.coordinate_format.coordinate_mode = CoordinateNotation.ABSOLUTE
        return node
''', '''        super().on_g90(node)
        self._set_notation(CoordinateNotation.ABSOLUTE)
        return node

    def _set_notation(self, notation: CoordinateNotation) -> None:
        fmt = self.state.coordinate_format
        if fmt is None:
            fmt = CoordinateFormat()
            self.state.coordinate_format = fmt
        fmt.coordinate_mode = notation
'''), (ST, '''        super().on_g91(node)
        if self.state.coordinate_format is None:
            self.state.coordinate_format = CoordinateFormat()

        self.state.coordinate_format.coordinate_mode = CoordinateNotation.INCREMENTAL
        return node
''', '''        super().on_g91(node)
        self._set_notation(CoordinateNotation.INCREMENTAL)
        return node
'''))
rf("st-g90-or", (ST, '''        super().on_g90(node)
        if self.state.coordinate_format is None:
            self.state.coordinate_format = CoordinateFormat()

        self.state.coordinate_format.coordinate_mode = CoordinateNotation.ABSOLUTE
        return node
''', '''        super().on_g90(node)
        coordinate_format = self.state.coordinate_format or CoordinateFormat()
        coordinate_format.coordinate_mode = CoordinateNotation.ABSOLUTE
        self.state.coordinate_format = coordinate_format
        return node
'''))
rf("st-coordinate-helper", (ST, '''        super().on_coordinate_x(node)
        if self.state.coordinate_format is None:
            raise CoordinateFormatNotSetError(node)

        self.state.coordinate_x = self.state.coordinate_format.unpack_x(node.value)
        return node
''', '''        super().on_coordinate_x(node)
        self.state.coordinate_x = self._require_format(node).unpack_x(node.value)
        return node

    def _require_format(self, node: Any) -> CoordinateFormat:
        coordinate_format = self.state.coordinate_format
        if coordinate_format is None:
            raise CoordinateFormatNotSetError(node)
        return coordinate_format
'''), (ST, '''        super().on_coordinate_j(node)
        if self.state.coordinate_format is None:
            raise CoordinateFormatNotSetError(node)

        self.state.coordinate_j = self.state.coordinate_format.unpack_y(node.value)
        return node
''', '''        super().on_coordinate_j(node)
        self.state.coordinate_j = self._require_format(node).unpack_y(node.value)
        return node
'''))
rf("st-on-file-try", (ST, '''        with suppress(ProgramStop):
            super().on_file(node)
        return node
''', '''        try:
            super().on_file(node)
        except ProgramStop:
            pass
        return node
'''))
rf("st-on-exception-bool", (ST, '''        if isinstance(exception, ProgramStop):
            return not self._ignore_program_stop

        return True
''', '''        return not (isinstance(exception, ProgramStop) and self._ignore_program_stop)
'''))
rf("st-next-free-code", (ST, '''        return (
            max(
                int(aperture_id.lstrip("D"))
                for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
            )
            + 1
        )
''', '''        highest = max(int(key.lstrip("D")) for key in chain(self.apertures, self.blocks))
        return highest + 1
'''))
rf("st-next-free-code-list", (ST, '''        return (
            max(
                int(aperture_id.lstrip("D"))
                for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
            )
            + 1
        )
''', '''        codes = [int(aperture_id.lstrip("D")) for aperture_id in self.apertures]
        codes += [int(aperture_id.lstrip("D")) for aperture_id in self.blocks]
        return max(codes) + 1
'''))
rf("st-pack-split-helper", (ST, '''            integer_str, decimal_str = f"{coordinate:.{decimal}f}".split(".")
            assert len(integer_str) > 0
            assert len(decimal_str) > 0

            if integer_str[0] in ("+", "-"):
                sign, integer_str = integer_str[0], integer_str[1:]
            else:
                sign = ""

            if len(integer_str) > integer:
                raise PackedCoordinateTooLongError(str(coordinate), integer, decimal)

            packed_no_sign = f"{integer_str}{decimal_str}".lstrip("0") or "0"
''', '''            sign, integer_str, decimal_str = _split(coordinate, integer, decimal)
            packed_no_sign = f"{integer_str}{decimal_str}".lstrip("0") or "0"
'''), (ST, '''            integer_str, decimal_str = f"{coordinate:.{decimal}f}".split(".")
            assert len(integer_str) > 0
            assert len(decimal_str) > 0

            if integer_str[0] in ("+", "-"):
                sign, integer_str = integer_str[0], integer_str[1:]
            else:
                sign = ""

            if len(integer_str) > integer:
                raise PackedCoordinateTooLongError(str(coordinate), integer, decimal)

            integer_str = integer_str.rjust(integer, "0")
''', '''            sign, integer_str, decimal_str = _split(coordinate, integer, decimal)
            integer_str = integer_str.rjust(integer, "0")
'''), (ST, '''class Attributes(_StateModel):''', '''def _split(coordinate: Double, integer: int, decimal: int) -> tuple[str, str, str]:
    integer_str, decimal_str = f"{coordinate:.{decimal}f}".split(".")
    assert len(integer_str) > 0
    assert len(decimal_str) > 0

    sign = ""
    if integer_str[0] in ("+", "-"):
        sign = integer_str[0]
        integer_str = integer_str[1:]

    if len(integer_str) > integer:
        raise PackedCoordinateTooLongError(str(coordinate), integer, decimal)
    return sign, integer_str, decimal_str


class Attributes(_StateModel):'''))
rf("st-unpack-preprocess", (ST, '''        if coordinate[0] in ("+", "-"):
            sign = coordinate[0]  # type: ignore[assignment]
            coordinate_str = coordinate[1:]
        else:
            coordinate_str = str(coordinate)

        if len(coordinate_str) > (integer + decimal):
            raise PackedCoordinateTooLongError(coordinate, integer, decimal)

        if len(coordinate_str) <= 0:
            raise PackedCoordinateTooShortError(coordinate, integer, decimal)
''', '''        coordinate_str = str(coordinate)
        if coordinate_str[0] in "+-":
            sign = coordinate_str[0]  # type: ignore[assignment]
            coordinate_str = coordinate_str[1:]

        if len(coordinate_str) > integer + decimal:
            raise PackedCoordinateTooLongError(coordinate, integer, decimal)

        if not coordinate_str:
            raise PackedCoordinateTooShortError(coordinate, integer, decimal)
'''))

CO = "gerber/compiler/compiler.py"
HOLE = '''        if node.hole_diameter is not None and node.hole_diameter > 0:
            aperture_buffer.append_shape(
                Shape.new_circle(
                    (0.0, 0.0),
                    min(node.hole_diameter, %s),
                    is_negative=True,
                    metadata=metadata,
                )
            )
        return node
'''
rf("co-hole-helper", *[(CO, HOLE % d, '''        self._append_hole(aperture_buffer, node.hole_diameter, metadata, %s)
        return node
''' % d) for d in ("node.diameter", "node.width, node.height", "node.width, node.height", "node.outer_diameter")],
(CO, '''    def _create_aperture_buffer(self,''', '''    def _append_hole(self, buffer, hole_diameter, metadata, *limits):
        if hole_diameter is None or hole_diameter <= 0:
            return
        buffer.append_shape(
            Shape.new_circle(
                (0.0, 0.0),
                min(hole_diameter, *limits),
                is_negative=True,
                metadata=metadata,
            )
        )

    def _create_aperture_buffer(self,'''))
rf("co-expand-try", (CO, '''            if isinstance(command, Shape):
                self._append_shape_to_current_buffer(command)
            elif isinstance(command, PasteLayer):
                self._append_paste_to_current_buffer(command)
            else:
                raise NotImplementedError(type(command))
''', '''            if not isinstance(command, (Shape, PasteLayer)):
                raise NotImplementedError(type(command))
            if isinstance(command, PasteLayer):
                self._append_paste_to_current_buffer(command)
            else:
                self._append_shape_to_current_buffer(command)
'''))
rf("co-new-buffer", (CO, '''        buffer = CommandBuffer(
            self.MAIN_BUFFER_ID,
            box=None,
            origin=Vector(x=0, y=0),
            commands=[],
            depends_on=set(),
            resolved_dependencies=[],
        )
        assert self.MAIN_BUFFER_ID not in self._buffers
        self._set_buffer(buffer)
        self._push_buffer(self.MAIN_BUFFER_ID)
''', '''        assert self.MAIN_BUFFER_ID not in self._buffers
        buffer = self._create_aperture_buffer(ApertureIdStr(self.MAIN_BUFFER_ID))
        self._push_buffer(self.MAIN_BUFFER_ID)
'''))
rf("co-new-buffer-plain", (CO, '''        buffer = CommandBuffer(
            self.MAIN_BUFFER_ID,
            box=None,
            origin=Vector(x=0, y=0),
            commands=[],
            depends_on=set(),
            resolved_dependencies=[],
        )
        assert self.MAIN_BUFFER_ID not in self._buffers
        self._set_buffer(buffer)
        self._push_buffer(self.MAIN_BUFFER_ID)
''', '''        assert self.MAIN_BUFFER_ID not in self._buffers
        buffer = _empty_buffer(self.MAIN_BUFFER_ID)
        self._set_buffer(buffer)
        self._push_buffer(self.MAIN_BUFFER_ID)
'''), (CO, '''class Compiler(StateTrackingVisitor):''', '''def _empty_buffer(id_):
    return CommandBuffer(
        id_,
        box=None,
        origin=Vector(x=0, y=0),
        commands=[],
        depends_on=set(),
        resolved_dependencies=[],
    )


class Compiler(StateTrackingVisitor):'''))
rf("co-thickness-order", (CO, '''        if isinstance(current_aperture, ADC):
            return current_aperture.diameter

        if isinstance(current_aperture, (ADR, ADO)):
            angle''', '''        if isinstance(current_aperture, ADC):
            return current_aperture.diameter

        if isinstance(current_aperture, ADP):
            return current_aperture.outer_diameter

        if isinstance(current_aperture, (ADR, ADO)):
            angle'''), (CO, '''            ).length()

        if isinstance(current_aperture, ADP):
            return current_aperture.outer_diameter

''', '''            ).length()

'''))
rf("co-sr-product", (CO, '''        for x in range(node.open.x_repeats):
            for y in range(node.open.y_repeats):
                x_coordinate = x * x_delta
                y_coordinate = y * y_delta
                tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
                    buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
                )

                self._expand_buffer_to_current_buffer(tmp_buffer)
''', '''        for x, y in itertools.product(
            range(node.open.x_repeats), range(node.open.y_repeats)
        ):
            tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
                buffer, Matrix3x3.new_translate(x=x * x_delta, y=y * y_delta)
            )
            self._expand_buffer_to_current_buffer(tmp_buffer)
'''))
rf("co-sr-offsets", (CO, '''        for x in range(node.open.x_repeats):
            for y in range(node.open.y_repeats):
                x_coordinate = x * x_delta
                y_coordinate = y * y_delta
                tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
                    buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
                )

                self._expand_buffer_to_current_buffer(tmp_buffer)
''', '''        offsets = [
            (x * x_delta, y * y_delta)
            for x in range(node.open.x_repeats)
            for y in range(node.open.y_repeats)
        ]
        for x_offset, y_offset in offsets:
            self._expand_buffer_to_current_buffer(
                self._apply_transform_to_buffer_non_recursive_tmp(
                    buffer, Matrix3x3.new_translate(x=x_offset, y=y_offset)
                )
            )
'''))
rf("co-metadata-helper", (CO, '''        if self._include_metadata:
            return _convert_attributes_to_metadata(
                self.state.attributes.aperture_attributes
            )
        return None
''', '''        return self._metadata_of(self.state.attributes.aperture_attributes)

    def _metadata_of(self, *groups) -> Optional[dict[str, str]]:
        if not self._include_metadata:
            return None
        metadata: dict[str, str] = {}
        for group in groups:
            metadata.update(_convert_attributes_to_metadata(group))
        return metadata
'''), (CO, '''        if self._include_metadata:
            metadata = _convert_attributes_to_metadata(
                self.state.attributes.aperture_attributes
            )
            metadata.update(
                _convert_attributes_to_metadata(self.state.attributes.object_attributes)
            )
            return metadata
        return None
''', '''        return self._metadata_of(
            self.state.attributes.aperture_attributes,
            self.state.attributes.object_attributes,
        )
'''))
rf("co-region-metadata-merge", (CO, '''        if self._include_metadata:
            metadata = _convert_attributes_to_metadata(
                self.state.attributes.aperture_attributes
            )
            metadata.update(
                _convert_attributes_to_metadata(self.state.attributes.object_attributes)
            )
            return metadata
        return None
''', '''        if not self._include_metadata:
            return None
        attributes = self.state.attributes
        return {
            **_convert_attributes_to_metadata(attributes.aperture_attributes),
            **_convert_attributes_to_metadata(attributes.object_attributes),
        }
'''))
rf("co-convert-loop", (CO, '''    return {
        key: value.model_dump_json(serialize_as_any=True)
        for key, value in attributes.items()
    }
''', '''    metadata: dict[str, str] = {}
    for name, attribute in attributes.items():
        metadata[name] = attribute.model_dump_json(serialize_as_any=True)
    return metadata
'''))
rf("co-macro-scope", (CO, '''        if node.params is None:
            scope = {}
        else:
            scope = {f"${i + 1}": param for i, param in enumerate(node.params)}
''', '''        scope = {}
        if node.params is not None:
            for i, param in enumerate(node.params, start=1):
                scope[f"${i}"] = param
'''))
rf("co-macro-scope-or", (CO, '''        if node.params is None:
            scope = {}
        else:
            scope = {f"${i + 1}": param for i, param in enumerate(node.params)}
''', '''        scope = {
            f"${i}": param for i, param in enumerate(node.params or [], start=1)
        }
'''))
rf("co-macro-try", (CO, '''        macro = self.state.apertures.macros.get(node.name)
        if macro is None:
            raise MacroNotDefinedError(node.name)
''', '''        try:
            macro = self.state.apertures.macros[node.name]
        except KeyError as e:
            raise MacroNotDefinedError(node.name) from e
'''))
rf("co-draw-line-loop", (CO, '''        self._append_shape_to_current_buffer(
            Shape.new_circle(
                start_point,
                thickness,
                is_negative=self.is_negative,
                metadata=metadata,
            )
        )
        self._append_shape_to_current_buffer(
            Shape.new_line(
                start_point,
                end_point,
                thickness=thickness,
                is_negative=self.is_negative,
                metadata=metadata,
            ),
        )
        self._append_shape_to_current_buffer(
            Shape.new_circle(
                end_point,
                thickness,
                is_negative=self.is_negative,
                metadata=metadata,
            )
        )
''', '''        is_negative = self.is_negative
        shapes = (
            Shape.new_circle(
                start_point, thickness, is_negative=is_negative, metadata=metadata
            ),
            Shape.new_line(
                start_point,
                end_point,
                thickness=thickness,
                is_negative=is_negative,
                metadata=metadata,
            ),
            Shape.new_circle(
                end_point, thickness, is_negative=is_negative, metadata=metadata
            ),
        )
        for shape in shapes:
            self._append_shape_to_current_buffer(shape)
'''))
ARC = '''        if start_point == end_point:
            length = Vector(x=self.coordinate_i, y=self.coordinate_j).length()
            start_point = (center_x - length, center_y)
            end_point = (center_x + length, center_y)

            self._append_shape_to_current_buffer(
                factory_method(
                    start_point,
                    end_point,
                    center,
                    thickness,
                    is_negative=self.is_negative,
                    metadata=metadata,
                )
            )
            self._append_shape_to_current_buffer(
                factory_method(
                    end_point,
                    start_point,
                    center,
                    thickness,
                    is_negative=self.is_negative,
                    metadata=metadata,
                )
            )

        else:
            self._append_shape_to_current_buffer(
                factory_method(
                    start_point,
                    end_point,
                    center,
                    thickness,
                    is_negative=self.is_negative,
                    metadata=metadata,
                )
            )
        self._append'''
rf("co-arc-segments", (CO, ARC, '''        is_full_circle = start_point == end_point
        if is_full_circle:
            length = Vector(x=self.coordinate_i, y=self.coordinate_j).length()
            start_point = (center_x - length, center_y)
            end_point = (center_x + length, center_y)

        segments = [(start_point, end_point)]
        if is_full_circle:
            segments.append((end_point, start_point))

        for begin, end in segments:
            self._append_shape_to_current_buffer(
                factory_method(
                    begin,
                    end,
                    center,
                    thickness,
                    is_negative=self.is_negative,
                    metadata=metadata,
                )
            )
        self._append'''))
rf("co-arc-local-fn", (CO, ARC, '''        def add_arc(begin, end):
            self._append_shape_to_current_buffer(
                factory_method(
                    begin,
                    end,
                    center,
                    thickness,
                    is_negative=self.is_negative,
                    metadata=metadata,
                )
            )

        if start_point != end_point:
            add_arc(start_point, end_point)
        else:
            length = Vector(x=self.coordinate_i, y=self.coordinate_j).length()
            start_point = (center_x - length, center_y)
            end_point = (center_x + length, center_y)
            add_arc(start_point, end_point)
            add_arc(end_point, start_point)
        self._append'''))
rf("co-points-helper", (CO, '''        start_x = self.state.current_x
        start_y = self.state.current_y
        start_point = (start_x, start_y)

        end_x = self.coordinate_x
        end_y = self.coordinate_y
        end_point = (end_x, end_y)

        self._contour_buffer.append(Line.from_tuples(start_point, end_point))
''', '''        self._contour_buffer.append(Line.from_tuples(*self._segment()))

    def _segment(self):
        start = (self.state.current_x, self.state.current_y)
        return start, (self.coordinate_x, self.coordinate_y)
'''))
rf("co-flush-guard", (CO, '''        metadata = self._get_region_metadata()

        if self._contour_buffer is None:
            raise ContourBufferNotSetError

        if len(self._contour_buffer) > 0:
            self._append_shape_to_current_buffer(
                Shape(
                    commands=self._contour_buffer,
                    is_negative=self.is_negative,
                    metadata=metadata,
                )
            )

        self._contour_buffer = []
''', '''        contour = self._contour_buffer
        if contour is None:
            raise ContourBufferNotSetError

        self._contour_buffer = []
        if not contour:
            return

        self._append_shape_to_current_buffer(
            Shape(
                commands=contour,
                is_negative=self.is_negative,
                metadata=self._get_region_metadata(),
            )
        )
'''))
rf("co-transform-shared", (CO, '''        commands: list[DrawCmdT] = []
        depends_on: set[str] = set()

        for cmd in buffer.commands:
            if isinstance(cmd, Shape):
                commands.append(cmd.transform(transform_matrix))

            elif isinstance(cmd, PasteLayer):
                aperture_buffer = self._get_aperture_buffer(cmd.source_layer_id.id)
                depends_on.add(aperture_buffer.id_str)
                commands.append(
                    PasteLayer(
                        source_layer_id=LayerID(id=aperture_buffer.id_str),
                        center=cmd.center.transform(transform_matrix),
                        is_negative=cmd.is_negative,
                        metadata=cmd.metadata,
                    )
                )

            else:
                raise NotImplementedError(type(cmd))

        return CommandBuffer(
            layer_id,
            None,
            origin=buffer.origin,
            commands=commands,
            depends_on=depends_on,
            resolved_dependencies=[],
        )
''', '''        return self._transformed(
            buffer,
            layer_id,
            transform_matrix,
            lambda source: LayerID(id=self._get_aperture_buffer(source.id).id_str),
        )

    def _transformed(self, buffer, layer_id, transform_matrix, resolve_source):
        commands: list[DrawCmdT] = []
        depends_on: set[str] = set()

        for cmd in buffer.commands:
            if isinstance(cmd, Shape):
                commands.append(cmd.transform(transform_matrix))
                continue

            if not isinstance(cmd, PasteLayer):
                raise NotImplementedError(type(cmd))

            source_layer_id = resolve_source(cmd.source_layer_id)
            depends_on.add(source_layer_id.id)
            commands.append(
                PasteLayer(
                    source_layer_id=source_layer_id,
                    center=cmd.center.transform(transform_matrix),
                    is_negative=cmd.is_negative,
                    metadata=cmd.metadata,
                )
            )

        return CommandBuffer(
            layer_id,
            None,
            origin=buffer.origin,
            commands=commands,
            depends_on=depends_on,
            resolved_dependencies=[],
        )
'''))
rf("co-submit-order-method", (CO, '''        buffer_submit_order: list[str] = []

        def _(buffer: CommandBuffer) -> None:
            for dependency_id in sorted(buffer.depends_on):
                dependency = self._get_buffer(dependency_id)
                _(dependency)

                if buffer.id_str in buffer_submit_order:
                    raise CyclicBufferDependencyError(buffer, dependency)

            buffer_submit_order.append(buffer.id_str)

        _(self._get_buffer(self.MAIN_BUFFER_ID))

        return [self._get_buffer(id_) for id_ in buffer_submit_order]
''', '''        order: list[str] = []
        self._visit_dependencies(self._get_buffer(self.MAIN_BUFFER_ID), order)
        return [self._get_buffer(id_) for id_ in order]

    def _visit_dependencies(self, buffer: CommandBuffer, order: list[str]) -> None:
        for dependency_id in sorted(buffer.depends_on):
            dependency = self._get_buffer(dependency_id)
            self._visit_dependencies(dependency, order)

            if buffer.id_str in order:
                raise CyclicBufferDependencyError(buffer, dependency)

        order.append(buffer.id_str)
'''))
rf("co-submit-order-rename", (CO, '''        def _(buffer: CommandBuffer) -> None:
            for dependency_id in sorted(buffer.depends_on):
                dependency = self._get_buffer(dependency_id)
                _(dependency)

                if''', '''        def visit(buffer: CommandBuffer) -> None:
            for dependency_id in sorted(buffer.depends_on):
                dependency = self._get_buffer(dependency_id)
                visit(dependency)

                if'''), (CO, '''        _(self._get_buffer(self.MAIN_BUFFER_ID))

        return [''', '''        visit(self._get_buffer(self.MAIN_BUFFER_ID))

        return ['''))
rf("co-to-rvmc-comp", (CO, '''        commands: list[Command] = []
        buffer_submit_order = self._resolve_buffer_submit_order()

        for buffer in buffer_submit_order:
            commands.append(StartLayer(id=LayerID(id=buffer.id_str), box=buffer.box))
            commands.extend(buffer.commands)
            commands.append(EndLayer())

        return RVMC(commands=commands, metadata=self._get_file_metadata())
''', '''        commands: list[Command] = []
        for buffer in self._resolve_buffer_submit_order():
            commands += [
                StartLayer(id=buffer.layer_id, box=buffer.box),
                *buffer.commands,
                EndLayer(),
            ]

        return RVMC(commands=commands, metadata=self._get_file_metadata())
'''))
rf("co-to-rvmc-generator", (CO, '''        commands: list[Command] = []
        buffer_submit_order = self._resolve_buffer_submit_order()

        for buffer in buffer_submit_order:
            commands.append(StartLayer(id=LayerID(id=buffer.id_str), box=buffer.box))
            commands.extend(buffer.commands)
            commands.append(EndLayer())

        return RVMC(commands=commands, metadata=self._get_file_metadata())
''', '''        return RVMC(
            commands=list(self._iter_commands()), metadata=self._get_file_metadata()
        )

    def _iter_commands(self):
        for buffer in self._resolve_buffer_submit_order():
            yield StartLayer(id=LayerID(id=buffer.id_str), box=buffer.box)
            yield from buffer.commands
            yield EndLayer()
'''))
rf("co-buffer-with-transform", (CO, '''        buffer = self._get_buffer_opt(layer_id)

        if buffer is None:
            aperture_base_buffer = self._get_buffer(aperture_id)
            buffer = self._apply_transform_to_buffer(
                aperture_base_buffer, layer_id, transform_matrix
            )
            assert buffer.id_str == layer_id
            self._set_buffer(buffer)

        return buffer
''', '''        existing = self._get_buffer_opt(layer_id)
        if existing is not None:
            return existing

        buffer = self._apply_transform_to_buffer(
            self._get_buffer(aperture_id), layer_id, transform_matrix
        )
        self._set_buffer(buffer)
        return buffer
'''))
rf("co-macro-finish-helper", *[(CO, '''        if rotation is not None:
            shape = shape.transform(Matrix3x3.new_rotate(rotation))

        self._aperture_buffer.append_shape(shape)
''', '''        self._append_rotated(shape, rotation)
''')] * 4, (CO, '''    def on_code_2(self,''', '''    def _append_rotated(self, shape, rotation):
        if rotation is not None:
            matrix = Matrix3x3.new_rotate(rotation)
            shape = shape.transform(matrix)
        self._aperture_buffer.append_shape(shape)

    def on_code_2(self,'''))
rf("co-code6-inner", (CO, '''                current_outer_diameter -= diameter_delta
                current_inner_diameter -= diameter_delta
''', '''                current_outer_diameter -= diameter_delta
                current_inner_diameter = current_outer_diameter - (ring_thickness * 2)
'''))
rf("co-code6-no-inner-var", (CO, '''            # Diameter is reduced from both sides, hence ring_thickness * 2.
            current_inner_diameter = outer_diameter - (ring_thickness * 2)
''', ''), (CO, '''                        current_outer_diameter,
                        current_inner_diameter,
                        is_negative=False,
                    )
                )
                current_outer_diameter -= diameter_delta
                current_inner_diameter -= diameter_delta
''', '''                        current_outer_diameter,
                        current_outer_diameter - (ring_thickness * 2),
                        is_negative=False,
                    )
                )
                current_outer_diameter -= diameter_delta
'''))
rf("co-code6-crosshair-loop", (CO, '''            shapes.append(
                Shape.new_line(
                    (center_x, center_y - half_crosshair_length),
                    (center_x, center_y + half_crosshair_length),
                    crosshair_thickness,
                    is_negative=False,
                    metadata=self._metadata,
                )
            )
            shapes.append(
                Shape.new_line(
                    (center_x - half_crosshair_length, center_y),
                    (center_x + half_crosshair_length, center_y),
                    crosshair_thickness,
                    is_negative=False,
                    metadata=self._metadata,
                )
            )
''', '''            half = half_crosshair_length
            for dx, dy in ((0, half), (half, 0)):
                shapes.append(
                    Shape.new_line(
                        (center_x - dx, center_y - dy),
                        (center_x + dx, center_y + dy),
                        crosshair_thickness,
                        is_negative=False,
                        metadata=self._metadata,
                    )
                )
'''))
rf("co-code6-final", (CO, '''        if rotation is not None:
            matrix = Matrix3x3.new_rotate(rotation)
            shapes = [shape.transform(matrix) for shape in shapes]

        for shape in shapes:
            self._aperture_buffer.append_shape(shape)

        return node
''', '''        matrix = Matrix3x3.new_rotate(rotation) if rotation is not None else None
        for shape in shapes:
            self._aperture_buffer.append_shape(
                shape if matrix is None else shape.transform(matrix)
            )

        return node
'''))
rf("co-code4-map", (CO, '''        points = [(self._eval(point.x), self._eval(point.y)) for point in node.points]
''', '''        points = []
        for point in node.points:
            x = self._eval(point.x)
            y = self._eval(point.y)
            points.append((x, y))
'''))
rf("co-code1-inline", (CO, '''        exposure = self._eval(node.exposure)
        diameter = self._eval(node.diameter)
        center_x = self._eval(node.center_x)
        center_y = self._eval(node.center_y)
        rotation = self._eval(node.rotation) if node.rotation is not None else None

        shape = Shape.new_circle(
            (center_x, center_y),
            diameter,
            is_negative=(exposure == 0),
            metadata=self._metadata,
        )
        if rotation is not None:
            shape = shape.transform(Matrix3x3.new_rotate(rotation))
''', '''        center = (self._eval(node.center_x), self._eval(node.center_y))
        diameter = self._eval(node.diameter)
        exposure = self._eval(node.exposure)

        shape = Shape.new_circle(
            center,
            diameter,
            is_negative=not exposure,
            metadata=self._metadata,
        )
        if node.rotation is not None:
            rotation = self._eval(node.rotation)
            shape = shape.transform(Matrix3x3.new_rotate(rotation))
'''))
# ------------------------------------------------------------------ geometry, colours
SH, VE, BX, MX, CL = "vm/commands/shape.py", "vm/types/vector.py", "vm/types/box.py", "vm/types/matrix.py", "vm/types/color.py"
rf("ge-rectangle-corners", (SH, '''        half_height = height / 2
        half_width = width / 2
        return cls(
            commands=[
                # Bottom line
                Line.from_tuples(
                    (center[0] - half_width, center[1] - half_height),
                    (center[0] + half_width, center[1] - half_height),
                ),
                # Right line
                Line.from_tuples(
                    (center[0] + half_width, center[1] - half_height),
                    (center[0] + half_width, center[1] + half_height),
                ),
                # Top line
                Line.from_tuples(
                    (center[0] + half_width, center[1] + half_height),
                    (center[0] - half_width, center[1] + half_height),
                ),
                # Left line
                Line.from_tuples(
                    (center[0] - half_width, center[1] + half_height),
                    (center[0] - half_width, center[1] - half_height),
                ),
            ],
            is_negative=is_negative,
            metadata=metadata,
        )
''', '''        x, y = center
        left, right = x - width / 2, x + width / 2
        bottom, top = y - height / 2, y + height / 2
        corners = [(left, bottom), (right, bottom), (right, top), (left, top)]
        commands = [
            Line.from_tuples(start, end)
            for start, end in zip(corners, corners[1:] + corners[:1])
        ]
        return cls(commands=commands, is_negative=is_negative, metadata=metadata)
'''))
rf("ge-rectangle-via-connected", (SH, '''        half_height = height / 2
        half_width = width / 2
        return cls(
            commands=[
                # Bottom line
                Line.from_tuples(
                    (center[0] - half_width, center[1] - half_height),
                    (center[0] + half_width, center[1] - half_height),
                ),
                # Right line
                Line.from_tuples(
                    (center[0] + half_width, center[1] - half_height),
                    (center[0] + half_width, center[1] + half_height),
                ),
                # Top line
                Line.from_tuples(
                    (center[0] + half_width, center[1] + half_height),
                    (center[0] - half_width, center[1] + half_height),
                ),
                # Left line
                Line.from_tuples(
                    (center[0] - half_width, center[1] + half_height),
                    (center[0] - half_width, center[1] - half_height),
                ),
            ],
            is_negative=is_negative,
            metadata=metadata,
        )
''', '''        half_height = height / 2
        half_width = width / 2
        return cls.new_connected_points(
            (center[0] - half_width, center[1] - half_height),
            (center[0] + half_width, center[1] - half_height),
            (center[0] + half_width, center[1] + half_height),
            (center[0] - half_width, center[1] + half_height),
            is_negative=is_negative,
            metadata=metadata,
        )
'''))
rf("ge-connected-zip", (SH, '''        commands: list[ShapeSegment] = [
            Line.from_tuples(points[i], points[i + 1]) for i in range(len(points) - 1)
        ]
        commands.append(Line.from_tuples(points[-1], points[0]))
''', '''        commands: list[ShapeSegment] = [
            Line.from_tuples(start, end) for start, end in zip(points, points[1:])
        ]
        commands.append(Line.from_tuples(points[-1], points[0]))
'''))
rf("ge-connected-loop", (SH, '''        commands: list[ShapeSegment] = [
            Line.from_tuples(points[i], points[i + 1]) for i in range(len(points) - 1)
        ]
        commands.append(Line.from_tuples(points[-1], points[0]))
''', '''        commands: list[ShapeSegment] = []
        for i in range(len(points) - 1):
            commands.append(Line.from_tuples(points[i], points[i + 1]))
        closing = Line.from_tuples(points[-1], points[0])
        commands.append(closing)
'''))
rf("ge-connected-range1", (SH, '''            Line.from_tuples(points[i], points[i + 1]) for i in range(len(points) - 1)
''', '''            Line.from_tuples(points[i - 1], points[i]) for i in range(1, len(points))
'''))
rf("ge-circle-points", (SH, '''        radius = diameter / 2
        return cls(
            commands=[
                Arc.from_tuples(
                    (center[0] - radius, center[1]),
                    (center[0] + radius, center[1]),
                    center=center,
                    clockwise=True,
                ),
                Arc.from_tuples(
                    (center[0] + radius, center[1]),
                    (center[0] - radius, center[1]),
                    center=center,
                    clockwise=True,
                ),
            ],
''', '''        radius = diameter / 2
        cx, cy = center
        left = (cx - radius, cy)
        right = (cx + radius, cy)
        return cls(
            commands=[
                Arc.from_tuples(left, right, center=center, clockwise=True),
                Arc.from_tuples(right, left, center=center, clockwise=True),
            ],
'''))
rf("ge-circle-loop", (SH, '''        radius = diameter / 2
        return cls(
            commands=[
                Arc.from_tuples(
                    (center[0] - radius, center[1]),
                    (center[0] + radius, center[1]),
                    center=center,
                    clockwise=True,
                ),
                Arc.from_tuples(
                    (center[0] + radius, center[1]),
                    (center[0] - radius, center[1]),
                    center=center,
                    clockwise=True,
                ),
            ],
''', '''        radius = diameter / 2
        return cls(
            commands=[
                Arc.from_tuples(
                    (center[0] - sign * radius, center[1]),
                    (center[0] + sign * radius, center[1]),
                    center=center,
                    clockwise=True,
                )
                for sign in (1, -1)
            ],
'''))
rf("ge-polygon-angles", (SH, '''        local_vertex_offset = Vector.unit.x * outer_diameter / 2
        local_vertex_offset = local_vertex_offset.transform(
            Matrix3x3.new_rotate(base_rotation)
        )

        for _ in range(vertices_count):
            new_local_vertex_offset = local_vertex_offset.transform(transform_matrix)

            commands.append(
                Line(
                    start=center_vector + local_vertex_offset,
                    end=center_vector + new_local_vertex_offset,
                )
            )
            local_vertex_offset = new_local_vertex_offset
''', '''        offset = (Vector.unit.x * outer_diameter / 2).transform(
            Matrix3x3.new_rotate(base_rotation)
        )

        for _ in range(vertices_count):
            previous, offset = offset, offset.transform(transform_matrix)
            commands.append(
                Line(start=center_vector + previous, end=center_vector + offset)
            )
'''))
rf("ge-line-half", (SH, '''        parallel = (end_vector - start_vector).normalized()
        perpendicular = Vector(x=-parallel.y, y=parallel.x) * (thickness / 2)
''', '''        half_thickness = thickness / 2
        direction = (end_vector - start_vector).normalized()
        perpendicular = Vector(
            x=-direction.y * half_thickness, y=direction.x * half_thickness
        )
'''))
rf("ge-line-perpendicular-helper", (SH, '''        parallel = (end_vector - start_vector).normalized()
        perpendicular = Vector(x=-parallel.y, y=parallel.x) * (thickness / 2)
''', '''        perpendicular = _perpendicular(end_vector - start_vector) * (thickness / 2)
'''), (SH, '''class Shape(''', '''def _perpendicular(vector):
    unit = vector.normalized()
    return Vector(x=-unit.y, y=unit.x)


class Shape('''))
rf("ge-cw-arc-extend-helper", (SH, '''        local_start_vector = start_vector - Vector.from_tuple(center)
        extend_start_vector = local_start_vector.normalized() * (thickness / 2)

        local_end_vector = end_vector - Vector.from_tuple(center)
        extend_end_vector = local_end_vector.normalized() * (thickness / 2)
''', '''        def extend(vector: Vector) -> Vector:
            return (vector - center_vector).normalized() * (thickness / 2)

        extend_start_vector = extend(start_vector)
        extend_end_vector = extend(end_vector)
'''))
rf("ge-ring-partial", (SH, '''        return (
            cls.new_cw_arc(
                point_0,
                point_1,
                center,
                thickness=thickness,
                is_negative=is_negative,
                metadata=metadata,
            ),
            cls.new_cw_arc(
                point_1,
                point_0,
                center,
                thickness=thickness,
                is_negative=is_negative,
                metadata=metadata,
            ),
        )
''', '''        arguments = {
            "thickness": thickness,
            "is_negative": is_negative,
            "metadata": metadata,
        }
        first = cls.new_cw_arc(point_0, point_1, center, **arguments)
        second = cls.new_cw_arc(point_1, point_0, center, **arguments)
        return (first, second)
'''))
rf("ge-ring-radius", (SH, '''        half_thickness = thickness / 2

        point_0 = (center[0] + inner_radius + half_thickness, center[1])
        point_1 = (center[0] - inner_radius - half_thickness, center[1])
''', '''        radius = inner_radius + thickness / 2
        x, y = center

        point_0 = (x + radius, y)
        point_1 = (x - radius, y)
'''))
rf("ge-obround-vars", (SH, '''        if width <= height:
            # Shape is taller than wider, hence rounding should be on bottom and top
            delta = half_width

            return cls(
                commands=[
                    # Bottom arc
                    Arc.from_tuples(
                        (center[0] - half_width, center[1] - half_height + delta),
                        (center[0] + half_width, center[1] - half_height + delta),
                        (center[0], center[1] - half_height + delta),
                        clockwise=False,
                    ),
                    # Right line
                    Line.from_tuples(
                        (center[0] + half_width, center[1] - half_height + delta),
                        (center[0] + half_width, center[1] + half_height - delta),
                    ),
                    # Top arc
                    Arc.from_tuples(
                        (center[0] + half_width, center[1] + half_height - delta),
                        (center[0] - half_width, center[1] + half_height - delta),
                        (center[0], center[1] + half_height - delta),
                        clockwise=False,
                    ),
                    # Left line
                    Line.from_tuples(
                        (center[0] - half_width, center[1] + half_height - delta),
                        (center[0] - half_width, center[1] - half_height + delta),
                    ),
                ],
                is_negative=is_negative,
                metadata=metadata,
            )
''', '''        if not height < width:
            # Shape is taller than wider, hence rounding should be on bottom and top
            left, right = center[0] - half_width, center[0] + half_width
            lower = center[1] - (half_height - half_width)
            upper = center[1] + (half_height - half_width)

            return cls(
                commands=[
                    Arc.from_tuples(
                        (left, lower),
                        (right, lower),
                        (center[0], lower),
                        clockwise=False,
                    ),
                    Line.from_tuples((right, lower), (right, upper)),
                    Arc.from_tuples(
                        (right, upper),
                        (left, upper),
                        (center[0], upper),
                        clockwise=False,
                    ),
                    Line.from_tuples((left, upper), (left, lower)),
                ],
                is_negative=is_negative,
                metadata=metadata,
            )
'''))
rf("ge-vector-add-merged", (VE, '''        if isinstance(other, Vector):
            return Vector(x=self.x + other.x, y=self.y + other.y)
        if isinstance(other, float):
            return Vector(x=self.x + other, y=self.y + other)
        if isinstance(other, (int, float)):
            return Vector(x=self.x + other, y=self.y + other)
        return NotImplemented
''', '''        if isinstance(other, Vector):
            return Vector(x=self.x + other.x, y=self.y + other.y)
        if not isinstance(other, (int, float)):
            return NotImplemented
        return Vector(x=self.x + other, y=self.y + other)
'''))
rf("ge-vector-ops-helper", (VE, '''        if isinstance(other, Vector):
            return Vector(x=self.x * other.x, y=self.y * other.y)
        if isinstance(other, float):
            return Vector(x=self.x * other, y=self.y * other)
        if isinstance(other, (int, float)):
            return Vector(x=self.x * other, y=self.y * other)
        return NotImplemented
''', '''        operand = self._as_vector(other)
        if operand is None:
            return NotImplemented
        return Vector(x=self.x * operand.x, y=self.y * operand.y)

    @staticmethod
    def _as_vector(other: object) -> Optional[Vector]:
        if isinstance(other, Vector):
            return other
        if isinstance(other, (int, float)):
            return Vector(x=other, y=other)
        return None
'''))
rf("ge-vector-operator-fn", (VE, '''        if isinstance(other, Vector):
            return Vector(x=self.x - other.x, y=self.y - other.y)
        if isinstance(other, float):
            return Vector(x=self.x - other, y=self.y - other)
        if isinstance(other, (int, float)):
            return Vector(x=self.x - other, y=self.y - other)
        return NotImplemented
''', '''        if isinstance(other, Vector):
            dx, dy = other.x, other.y
        elif isinstance(other, (int, float)):
            dx = dy = other
        else:
            return NotImplemented
        return Vector(x=self.x - dx, y=self.y - dy)
'''))
rf("ge-vector-angle-if", (VE, '''        return angle_degrees + (360 * (angle_degrees < 0))
''', '''        if angle_degrees < 0:
            angle_degrees += 360
        return angle_degrees
'''))
rf("ge-vector-hypot-vars", (VE, '''        angle_radians = math.atan2(
            ((v0.x * v1.y) - (v1.x * v0.y)),  # determinant
            ((v0.x * v1.x) + (v0.y * v1.y)),  # dot product
        )
        angle_degrees = math.degrees(angle_radians)
''', '''        determinant = v0.x * v1.y - v0.y * v1.x
        dot_product = v0.x * v1.x + v0.y * v1.y
        angle_degrees = math.degrees(math.atan2(determinant, dot_product))
'''))
rf("ge-vector-normalized", (VE, '''        if self.x == 0 and self.y == 0:
            return Vector.from_tuple((1, 0))

        return self / self.length()
''', '''        is_null = not (self.x != 0 or self.y != 0)
        return Vector(x=1, y=0) if is_null else self / self.length()
'''))
rf("ge-vector-length-pow", (VE, '''        return math.sqrt((self.x * self.x) + (self.y * self.y))
''', '''        return math.sqrt(self.x**2 + self.y**2)
'''))
rf("ge-vector-eq-tuple", (VE, '''            return self.x == other.x and self.y == other.y
''', '''            return self.xy == other.xy
'''))
rf("ge-box-from-vectors-minmax", (BX, '''        min_x = vectors[0].x
        min_y = vectors[0].y
        max_x = vectors[0].x
        max_y = vectors[0].y

        for vector in vectors[1:]:
            min_x = min(min_x, vector.x)
            min_y = min(min_y, vector.y)
            max_x = max(max_x, vector.x)
            max_y = max(max_y, vector.y)

        return cls(
            min_x=min_x,
            min_y=min_y,
            max_x=max_x,
            max_y=max_y,
        )
''', '''        xs = [vector.x for vector in vectors]
        ys = [vector.y for vector in vectors]
        return cls(min_x=min(xs), min_y=min(ys), max_x=max(xs), max_y=max(ys))
'''))
rf("ge-box-from-vectors-star", (BX, '''        min_x = vectors[0].x
        min_y = vectors[0].y
        max_x = vectors[0].x
        max_y = vectors[0].y

        for vector in vectors[1:]:
            min_x = min(min_x, vector.x)
            min_y = min(min_y, vector.y)
            max_x = max(max_x, vector.x)
            max_y = max(max_y, vector.y)
''', '''        first, *rest = vectors
        min_x = max_x = first.x
        min_y = max_y = first.y

        for vector in rest:
            if vector.x < min_x:
                min_x = vector.x
            if vector.y < min_y:
                min_y = vector.y
            if vector.x > max_x:
                max_x = vector.x
            if vector.y > max_y:
                max_y = vector.y
'''))
rf("ge-box-center-vars", (BX, '''        return cls(
            min_x=center[0] - width / 2,
            min_y=center[1] - height / 2,
            max_x=center[0] + width / 2,
            max_y=center[1] + height / 2,
        )
''', '''        half_width, half_height = width * 0.5, height * 0.5
        x, y = center
        return cls(
            min_x=x - half_width,
            max_x=x + half_width,
            min_y=y - half_height,
            max_y=y + half_height,
        )
'''))
rf("ge-box-sub-neg", (BX, '''        if isinstance(other, Vector):
            return self.__class__(
                min_x=self.min_x - other.x,
                min_y=self.min_y - other.y,
                max_x=self.max_x - other.x,
                max_y=self.max_y - other.y,
            )

        return NotImplemented
''', '''        if isinstance(other, Vector):
            return self + (-other)

        return NotImplemented
'''))
rf("ge-box-shift-helper", (BX, '''        if isinstance(other, Vector):
            return self.__class__(
                min_x=self.min_x + other.x,
                min_y=self.min_y + other.y,
                max_x=self.max_x + other.x,
                max_y=self.max_y + other.y,
            )

        return NotImplemented
''', '''        if isinstance(other, Vector):
            return self._shifted(other.x, other.y)

        return NotImplemented

    def _shifted(self, dx: float, dy: float) -> Self:
        return type(self)(
            min_x=self.min_x + dx,
            min_y=self.min_y + dy,
            max_x=self.max_x + dx,
            max_y=self.max_y + dy,
        )
'''), (BX, '''            return self.__class__(
                min_x=self.min_x - other.x,
                min_y=self.min_y - other.y,
                max_x=self.max_x - other.x,
                max_y=self.max_y - other.y,
            )
''', '''            return self._shifted(-other.x, -other.y)
'''))
rf("ge-matmul-sum", (MX, '''            result = [
                [0.0, 0.0, 0.0],
                [0.0, 0.0, 0.0],
                [0.0, 0.0, 0.0],
            ]

            for i in range(len(self.mtx)):
                for j in range(len(other.mtx[0])):
                    for k in range(len(other.mtx)):
                        result[i][j] += self.mtx[i][k] * other.mtx[k][j]

            return other.__class__(tuple(map(tuple, result)))  # type: ignore[arg-type, return-value]
''', '''            rows = tuple(
                tuple(
                    sum(row[k] * other.mtx[k][j] for k in range(len(other.mtx)))
                    for j in range(len(other.mtx[0]))
                )
                for row in self.mtx
            )
            return other.__class__(rows)  # type: ignore[arg-type, return-value]
'''))
rf("ge-matmul-vector-unpack", (MX, '''            x = self.mtx[0][0] * other.x + self.mtx[0][1] * other.y + self.mtx[0][2]
            y = self.mtx[1][0] * other.x + self.mtx[1][1] * other.y + self.mtx[1][2]
            return Vector(x=x, y=y)  # type: ignore[return-value]
''', '''            (a, b, dx), (c, d, dy) = self.mtx[0], self.mtx[1]
            return Vector(
                x=a * other.x + b * other.y + dx,
                y=c * other.x + d * other.y + dy,
            )  # type: ignore[return-value]
'''))
rf("ge-matmul-vector-rows", (MX, '''            x = self.mtx[0][0] * other.x + self.mtx[0][1] * other.y + self.mtx[0][2]
            y = self.mtx[1][0] * other.x + self.mtx[1][1] * other.y + self.mtx[1][2]
            return Vector(x=x, y=y)  # type: ignore[return-value]
''', '''            x, y = (
                row[0] * other.x + row[1] * other.y + row[2]
                for row in (self.mtx[0], self.mtx[1])
            )
            return Vector(x=x, y=y)  # type: ignore[return-value]
'''))
rf("ge-matrix-reflect-var", (MX, '''        return cls(
            (
                (-1.0 if x else 1.0, 0.0, 0.0),
                (0.0, -1.0 if y else 1.0, 0.0),
                (0.0, 0.0, 1.0),
            )
        )
''', '''        x_factor = 1.0
        y_factor = 1.0
        if x:
            x_factor = -1.0
        if y:
            y_factor = -1.0
        return cls.new_scale(x_factor, y_factor)
'''))
rf("ge-matrix-rotate-vars", (MX, '''        angle = radians(angle)
        c = cos(angle)
        s = sin(angle)
''', '''        angle_radians = radians(angle)
        c, s = cos(angle_radians), sin(angle_radians)
'''))
rf("ge-color-hex-groups", (CL, '''        r = re_match.groupdict()["R"]
        g = re_match.groupdict()["G"]
        b = re_match.groupdict()["B"]
        a = re_match.groupdict()["A"] or "FF"
''', '''        groups = re_match.groupdict()
        r, g, b = groups["R"], groups["G"], groups["B"]
        a = groups["A"] if groups["A"] else "FF"
'''))
rf("ge-color-hex-group", (CL, '''        r = re_match.groupdict()["R"]
        g = re_match.groupdict()["G"]
        b = re_match.groupdict()["B"]
        a = re_match.groupdict()["A"] or "FF"

        return cls(
            red=int(r, base=16),
            green=int(g, base=16),
            blue=int(b, base=16),
            alpha=int(a, base=16),
        )
''', '''        r, g, b, a = (
            int(re_match.group(name) or "FF", base=16) for name in ("R", "G", "B", "A")
        )
        return cls(red=r, green=g, blue=b, alpha=a)
'''))
rf("ge-color-hex-walrus", (CL, '''        re_match = re.match(
            r"^#?"
            r"(?P<R>[A-Fa-f0-9]{2})"
            r"(?P<G>[A-Fa-f0-9]{2})"
            r"(?P<B>[A-Fa-f0-9]{2})"
            r"(?P<A>[A-Fa-f0-9]{2})?"
            r"$",
            string,
        )
        if re_match is None:
            raise InvalidHexColorLiteralError(string)
''', '''        re_match = _HEX_COLOR.match(string)
        if not re_match:
            raise InvalidHexColorLiteralError(string)
'''), (CL, '''class Color(ModelType):
''', '''_HEX_COLOR = re.compile(
    r"^#?"
    r"(?P<R>[A-Fa-f0-9]{2})"
    r"(?P<G>[A-Fa-f0-9]{2})"
    r"(?P<B>[A-Fa-f0-9]{2})"
    r"(?P<A>[A-Fa-f0-9]{2})?"
    r"$"
)


class Color(ModelType):
'''))
rf("ge-color-to-hex-join", (CL, '''        r = f"{self.red:0{2}x}"
        g = f"{self.green:0{2}x}"
        b = f"{self.blue:0{2}x}"
        a = f"{self.alpha:0{2}x}"
        return f"#{r}{g}{b}{a}"
''', '''        return "#" + "".join(f"{channel:02x}" for channel in self.as_rgba_int())
'''))
rf("ge-color-to-hex-direct", (CL, '''        r = f"{self.red:0{2}x}"
        g = f"{self.green:0{2}x}"
        b = f"{self.blue:0{2}x}"
        a = f"{self.alpha:0{2}x}"
        return f"#{r}{g}{b}{a}"
''', '''        return f"#{self.red:02x}{self.green:02x}{self.blue:02x}{self.alpha:02x}"
'''))
rf("ge-color-float-loop", (CL, '''        return (
            float(Decimal(self.red) / Decimal(255)),
            float(Decimal(self.green) / Decimal(255)),
            float(Decimal(self.blue) / Decimal(255)),
            float(Decimal(self.alpha) / Decimal(255)),
        )
''', '''        limit = Decimal(255)
        r, g, b, a = [float(Decimal(c) / limit) for c in self.as_rgba_int()]
        return r, g, b, a
'''))
rf("ge-color-hsv-elif", (CL, '''        if 0 <= hue < HSV_Q0_MAX_ANGLE_DEGREES:
            r_, g_, b_ = c, x, 0.0
        elif HSV_Q0_MAX_ANGLE_DEGREES <= hue < HSV_Q1_MAX_ANGLE_DEGREES:
            r_, g_, b_ = x, c, 0.0
        elif HSV_Q1_MAX_ANGLE_DEGREES <= hue < HSV_Q2_MAX_ANGLE_DEGREES:
            r_, g_, b_ = 0.0, c, x
        elif HSV_Q2_MAX_ANGLE_DEGREES <= hue < HSV_Q3_MAX_ANGLE_DEGREES:
            r_, g_, b_ = 0.0, x, c
        elif HSV_Q3_MAX_ANGLE_DEGREES <= hue < HSV_Q4_MAX_ANGLE_DEGREES:
            r_, g_, b_ = x, 0.0, c
        elif HSV_Q4_MAX_ANGLE_DEGREES <= hue <= HSV_Q5_MAX_ANGLE_DEGREES:
            r_, g_, b_ = c, 0.0, x
        else:
            raise ValueError(hue)
''', '''        if not 0 <= hue <= HSV_Q5_MAX_ANGLE_DEGREES:
            raise ValueError(hue)
        if hue < HSV_Q0_MAX_ANGLE_DEGREES:
            r_, g_, b_ = c, x, 0.0
        elif hue < HSV_Q1_MAX_ANGLE_DEGREES:
            r_, g_, b_ = x, c, 0.0
        elif hue < HSV_Q2_MAX_ANGLE_DEGREES:
            r_, g_, b_ = 0.0, c, x
        elif hue < HSV_Q3_MAX_ANGLE_DEGREES:
            r_, g_, b_ = 0.0, x, c
        elif hue < HSV_Q4_MAX_ANGLE_DEGREES:
            r_, g_, b_ = x, 0.0, c
        else:
            r_, g_, b_ = c, 0.0, x
'''))
rf("ge-color-hsv-return", (CL, '''        return cls(
            red=round((r_ + m) * 255),
            green=round((g_ + m) * 255),
            blue=round((b_ + m) * 255),
            alpha=alpha,
        )
''', '''        red, green, blue = (round(255 * (v + m)) for v in (r_, g_, b_))
        return cls.from_rgba(red, green, blue, alpha)
'''))
