SV = "vm/shapely/vm.py"
rf("sv-available-return", (SV, '''        except (ImportError, ValueError):
            _IS_shapely_AVAILABLE = False

        else:
            _IS_shapely_AVAILABLE = _spec_shapely is not None

    return''', '''            _IS_shapely_AVAILABLE = _spec_shapely is not None
        except (ImportError, ValueError):
            _IS_shapely_AVAILABLE = False

    return'''))
rf("sv-save-early", (SV, '''        if file_format.casefold() == "svg".casefold():
            self.save_svg(destination, color, **kwargs)
        else:
            raise NotImplementedError(file_format)
''', '''        if file_format.casefold() != "svg":
            raise NotImplementedError(file_format)
        self.save_svg(destination, color, **kwargs)
'''))
rf("sv-save-svg-flat", (SV, '''        if isinstance(destination, (str, Path)):
            with Path(destination).open("wb") as file:
                self._dump_svg(file, color, encoding=encoding)

        elif isinstance(destination, (BinaryIO, BytesIO)):
            self._dump_svg(destination, color, encoding=encoding)

        else:
            raise NotImplementedError(type(destination))
''', '''        if isinstance(destination, (BinaryIO, BytesIO)):
            self._dump_svg(destination, color, encoding=encoding)
            return
        if not isinstance(destination, (str, Path)):
            raise NotImplementedError(type(destination))

        path = Path(destination)
        with path.open("wb") as file:
            self._dump_svg(file, color, encoding=encoding)
'''))
rf("sv-dump-write-helper", (SV, '''        out.write(f'width="{width}" '.encode(encoding))
        out.write(f'height="{height}" '.encode(encoding))
        out.write(f'viewBox="{view_box}" '.encode(encoding))
        out.write('preserveAspectRatio="xMidYMid meet" '.encode(encoding))
        out.write(">".encode(encoding))
''', '''        def write(text: str) -> None:
            out.write(text.encode(encoding))

        write(f'width="{width}" ')
        write(f'height="{height}" ')
        write(f'viewBox="{view_box}" ')
        write('preserveAspectRatio="xMidYMid meet" ')
        write(">")
'''))
rf("sv-dump-loop", (SV, '''        out.write(f'width="{width}" '.encode(encoding))
        out.write(f'height="{height}" '.encode(encoding))
        out.write(f'viewBox="{view_box}" '.encode(encoding))
        out.write('preserveAspectRatio="xMidYMid meet" '.encode(encoding))
        out.write(">".encode(encoding))
''', '''        for attribute in (
            f'width="{width}" ',
            f'height="{height}" ',
            f'viewBox="{view_box}" ',
            'preserveAspectRatio="xMidYMid meet" ',
            ">",
        ):
            out.write(attribute.encode(encoding))
'''))
rf("sv-dump-locals", (SV, '''        dx = xmax - xmin
        dy = ymax - ymin
        width = dx
        height = dy

        fill_color = color.foreground.to_hex()

        view_box = f"{xmin} {ymin} {dx} {dy}"
        transform = f"matrix(1,0,0,-1,0,{ymax + ymin})"
''', '''        width, height = xmax - xmin, ymax - ymin
        transform = f"matrix(1,0,0,-1,0,{ymin + ymax})"
        view_box = f"{xmin} {ymin} {width} {height}"
        fill_color = color.foreground.to_hex()
'''))
rf("sv-dump-group-method", (SV, '''        out.write(
            (
                f'<g transform="{transform}">'
                f"{self.shape.svg(scale_factor=0.0, fill_color=fill_color)}"
                "</g>"
            )
            .replace('stroke="#555555"', 'stroke="#00000000"')
            .encode(encoding)
        )
        out.write("</svg>".encode(encoding))
''', '''        out.write(self._group(transform, fill_color).encode(encoding))
        out.write("</svg>".encode(encoding))

    def _group(self, transform: str, fill_color: str) -> str:
        body = self.shape.svg(scale_factor=0.0, fill_color=fill_color)
        group = f'<g transform="{transform}">{body}</g>'
        return group.replace('stroke="#555555"', 'stroke="#00000000"')
'''))
rf("sv-shape-start-once", (SV, '''            if isinstance(segment, Line):
                start = (segment.start.x, segment.start.y)
                if len(points) == 0 or points[-1] != start:
                    points.append(start)

                end = (segment.end.x, segment.end.y)
                points.append(end)

            elif isinstance(segment, Arc):
                start = (segment.start.x, segment.start.y)
                if len(points) == 0 or points[-1] != start:
                    points.append(start)

                points.extend(self._calculate_arc_points(segment))

                end = (segment.end.x, segment.end.y)
                if end != points[-1]:
                    points.append(end)
            else:
                raise NotImplementedError(type(segment))
''', '''            if not isinstance(segment, (Line, Arc)):
                raise NotImplementedError(type(segment))

            start = (segment.start.x, segment.start.y)
            if not points or points[-1] != start:
                points.append(start)

            end = (segment.end.x, segment.end.y)
            if isinstance(segment, Line):
                points.append(end)
            else:
                points.extend(self._calculate_arc_points(segment))
                if points[-1] != end:
                    points.append(end)
'''))
rf("sv-shape-helper", (SV, '''                start = (segment.start.x, segment.start.y)
                if len(points) == 0 or points[-1] != start:
                    points.append(start)

                end = (segment.end.x, segment.end.y)
                points.append(end)
''', '''                self._begin_at(points, segment.start)
                points.append(segment.end.xy)
'''), (SV, '''                start = (segment.start.x, segment.start.y)
                if len(points) == 0 or points[-1] != start:
                    points.append(start)

                points.extend(''', '''                self._begin_at(points, segment.start)
                points.extend('''), (SV, '''    def _add_polygon(
''', '''    @staticmethod
    def _begin_at(points: list[tuple[float, float]], start: Vector) -> None:
        point = (start.x, start.y)
        if len(points) == 0 or points[-1] != point:
            points.append(point)

    def _add_polygon(
'''))
rf("sv-polygon-early", (SV, '''        if is_negative:
            tree = shtree.STRtree(self.layer.shape)
            idx = tree.query(transformed_shape)

            for i in idx.reshape(-1):
                self.layer.shape[i] = self.layer.shape[i].difference(transformed_shape)
        else:
            self.layer.shape.append(transformed_shape)
''', '''        if not is_negative:
            layer.shape.append(transformed_shape)
            return

        shapes = layer.shape
        for i in shtree.STRtree(shapes).query(transformed_shape).reshape(-1):
            shapes[i] = shapes[i].difference(transformed_shape)
'''))
rf("sv-offset-helper", (SV, '''        x_offset = -layer.origin.x
        y_offset = -layer.origin.y

        transformed_shape = sh.transform(
            polygon,
            lambda p: (
                np.array(
                    [
                        p[:, 0] + x_offset,
                        p[:, 1] + y_offset,
                    ]
                ).T
            ),
        ).buffer(0)
''', '''        transformed_shape = self._translate(
            polygon, -layer.origin.x, -layer.origin.y
        ).buffer(0)
'''), (SV, '''        x_offset = -layer.origin.x + command.center.x
        y_offset = -layer.origin.y + command.center.y

        transformed_shape = [
            sh.transform(
                geom,
                lambda p: (
                    np.array(
                        [
                            p[:, 0] + x_offset,
                            p[:, 1] + y_offset,
                        ]
                    ).T
                ),
            )
            for geom in source_layer.shape
        ]
''', '''        x_offset = command.center.x - layer.origin.x
        y_offset = command.center.y - layer.origin.y
        transformed_shape = [
            self._translate(geom, x_offset, y_offset) for geom in source_layer.shape
        ]
'''), (SV, '''    def run(self, rvmc: RVMC) -> ShapelyResult:
''', '''    @staticmethod
    def _translate(geom: Any, x: float, y: float) -> Any:
        return sh.transform(
            geom, lambda p: np.array([p[:, 0] + x, p[:, 1] + y]).T
        )

    def run(self, rvmc: RVMC) -> ShapelyResult:
'''))
rf("sv-arc-params", (SV, '''        angle_generator: Generator[float, None, None]

        if start_angle <= end_angle:
            if command.clockwise:
                end_angle -= FULL_ANGLE_DEGREES
                angle_generator = self._generate_arc_angles(
                    start_angle, end_angle, angle_delta, *DECREASE_ANGLE
                )
            else:
                angle_generator = self._generate_arc_angles(
                    start_angle, end_angle, angle_delta, *INCREASE_ANGLE
                )
        elif command.clockwise:
            angle_generator = self._generate_arc_angles(
                start_angle, end_angle, angle_delta, *DECREASE_ANGLE
            )
        else:
            end_angle += FULL_ANGLE_DEGREES
            angle_generator = self._generate_arc_angles(
                start_angle, end_angle, angle_delta, *INCREASE_ANGLE
            )

        radius = command.get_radius()
''', '''        if command.clockwise:
            if start_angle <= end_angle:
                end_angle -= FULL_ANGLE_DEGREES
            direction = DECREASE_ANGLE
        else:
            if start_angle > end_angle:
                end_angle += FULL_ANGLE_DEGREES
            direction = INCREASE_ANGLE

        angle_generator = self._generate_arc_angles(
            start_angle, end_angle, angle_delta, *direction
        )
        radius = command.get_radius()
'''))
rf("sv-arc-angle-helper", (SV, '''        start_angle = (
            command.get_relative_start_point().angle_between(
                Vector.unit.x,
            )
            % 360
        )
        end_angle = (
            command.get_relative_end_point().angle_between(
                Vector.unit.x,
            )
            % 360
        )
''', '''        def angle_of(point: Vector) -> float:
            return point.angle_between(Vector.unit.x) % 360

        start_angle = angle_of(command.get_relative_start_point())
        end_angle = angle_of(command.get_relative_end_point())
'''))
rf("sv-arc-radius-once", (SV, '''        angle_delta = abs(start_angle - end_angle)
        angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
''', '''        radius = command.get_radius()
        angle_delta = abs(end_angle - start_angle)
        angle_length = angle_delta * radius * 2 * math.pi / 360
'''), (SV, '''        radius = command.get_radius()

        for angle in angle_generator:
            offset_vector = Vector(
                x=radius * math.cos(math.radians(angle)),
                y=radius * math.sin(math.radians(angle)),
            )

            yield (command.center + offset_vector).xy
''', '''        for angle in angle_generator:
            radians = math.radians(angle)
            offset_vector = Vector(
                x=radius * math.cos(radians), y=radius * math.sin(radians)
            )
            yield (command.center + offset_vector).xy
'''))
rf("sv-arc-assert-range", (SV, '''        assert start_angle >= 0
        assert end_angle >= 0

        assert start_angle < FULL_ANGLE_DEGREES
        assert end_angle < FULL_ANGLE_DEGREES
''', '''        assert 0 <= start_angle < FULL_ANGLE_DEGREES
        assert 0 <= end_angle < FULL_ANGLE_DEGREES
'''))
rf("sv-generate-true", (SV, '''        current_angle = start
        while compare_angles(current_angle, end):
            yield current_angle
            current_angle = apply_delta(current_angle, delta)
        yield end
''', '''        current_angle = start
        while True:
            if not compare_angles(current_angle, end):
                break
            yield current_angle
            current_angle = apply_delta(current_angle, delta)

        yield end
'''))
rf("sv-paste-append", (SV, '''        else:
            self.layer.shape.extend(transformed_shape)
''', '''        else:
            for geometry in transformed_shape:
                self.layer.shape.append(geometry)
'''))
rf("sv-paste-negative-first", (SV, '''        if command.is_negative:
            dest_layer_tree = shtree.STRtree(self.layer.shape)
            dest_idx = dest_layer_tree.query(transformed_shape).T

            for i, j in dest_idx:
                self.layer.shape[j] = self.layer.shape[j].difference(
                    transformed_shape[i]
                )
        else:
            self.layer.shape.extend(transformed_shape)
''', '''        shapes = self.layer.shape
        if not command.is_negative:
            shapes.extend(transformed_shape)
            return

        for i, j in shtree.STRtree(shapes).query(transformed_shape).T:
            remaining = shapes[j].difference(transformed_shape[i])
            shapes[j] = remaining
'''))
rf("sv-run-subscript", (SV, '''        layer = self._layers.get(self.MAIN_LAYER_ID, None)

        if layer is None:
            raise NoMainLayerError

        assert isinstance(layer, ShapelyEagerLayer)
        return ShapelyResult(layer.box, sh.unary_union(layer.shape))''', '''        main_layer = self._layers.get(self.MAIN_LAYER_ID)
        if main_layer is None:
            raise NoMainLayerError
        assert isinstance(main_layer, ShapelyEagerLayer)
        merged = sh.unary_union(main_layer.shape)
        return ShapelyResult(main_layer.box, merged)'''))
CG = "console/gerber.py"
_LOAD = '''    style_obj = _sanitize_style(style, foreground, background)
    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])

    if implementation.lower() == "pillow":
        result = file.render_with_pillow(style_obj, dpmm)
'''
rf("cg-open-helper", *_all(CG, '''file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])''', '''file = _open_file(source, file_type)''', (CG, '''def _sanitize_style(
''', '''def _open_file(source: str, file_type: str) -> GerberFile:
    kind = FileTypeEnum[file_type.upper()]
    return GerberFile.from_file(source, file_type=kind)


def _sanitize_style(
''')))
rf("cg-render-helper", (CG, _LOAD + '''        result.save_png(output)

    else:
        msg = f"Implementation {implementation!r} is not supported."
        raise NotImplementedError(msg)


def _sanitize_style(
''', '''    result = _render(
        source, file_type, style, foreground, background, dpmm, implementation
    )
    result.save_png(output)


def _render(  # noqa: PLR0913
    source: str,
    file_type: str,
    style: Optional[str],
    foreground: Optional[str],
    background: Optional[str],
    dpmm: int,
    implementation: str,
) -> Any:
    style_obj = _sanitize_style(style, foreground, background)
    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
    if implementation.lower() != "pillow":
        msg = f"Implementation {implementation!r} is not supported."
        raise NotImplementedError(msg)
    return file.render_with_pillow(style_obj, dpmm)


def _sanitize_style(
'''), (CG, _LOAD + '''        result.save_jpeg(output, quality=quality)

    else:
        msg = f"Implementation {implementation!r} is not supported."
        raise NotImplementedError(msg)
''', '''    result = _render(
        source, file_type, style, foreground, background, dpmm, implementation
    )
    result.save_jpeg(output, quality=quality)
'''), (CG, _LOAD + '''        result.save_webp(output, lossless=lossless, quality=quality)

    else:
        msg = f"Implementation {implementation!r} is not supported."
        raise NotImplementedError(msg)
''', '''    result = _render(
        source, file_type, style, foreground, background, dpmm, implementation
    )
    result.save_webp(output, quality=quality, lossless=lossless)
'''))
rf("cg-sanitize-early", (CG, '''    style_obj: Optional[Style] = None

    if style is not None:
        style = style.upper()

        if style == "CUSTOM":
            if foreground is None or background is None:
                option_name = "foreground" if foreground is None else "background"
                msg = (
                    "When using CUSTOM style, both foreground and background must be "
                    "specified."
                )
                raise click.BadOptionUsage(option_name, msg)

            try:
                background_color = Color.from_hex(background)
            except InvalidHexColorLiteralError as e:
                msg = f"Invalid hex color literal: {e!r}"
                raise click.BadOptionUsage("background", msg) from e

            try:
                foreground_color = Color.from_hex(foreground)
            except InvalidHexColorLiteralError as e:
                msg = f"Invalid hex color literal: {e!r}"
                raise click.BadOptionUsage("foreground", msg) from e

            style_obj = Style(
                background=background_color,
                foreground=foreground_color,
            )

        else:
            style_obj = Style.presets.get_styles().get(style)

            if style_obj is None:
                option_name = "style"
                msg = f"Style {style!r} is not recognized."
                raise click.BadOptionUsage(option_name, msg)

    return style_obj
''', '''    if style is None:
        return None

    style = style.upper()
    if style == "CUSTOM":
        return _custom_style(foreground, background)

    style_obj = Style.presets.get_styles().get(style)
    if style_obj is None:
        msg = f"Style {style!r} is not recognized."
        raise click.BadOptionUsage("style", msg)
    return style_obj


def _custom_style(foreground: Optional[str], background: Optional[str]) -> Style:
    for name, value in (("foreground", foreground), ("background", background)):
        if value is None:
            msg = (
                "When using CUSTOM style, both foreground and background must be "
                "specified."
            )
            raise click.BadOptionUsage(name, msg)

    background_color = _parse_color("background", background)
    foreground_color = _parse_color("foreground", foreground)
    return Style(background=background_color, foreground=foreground_color)


def _parse_color(option_name: str, value: str) -> Color:
    try:
        return Color.from_hex(value)
    except InvalidHexColorLiteralError as e:
        msg = f"Invalid hex color literal: {e!r}"
        raise click.BadOptionUsage(option_name, msg) from e
'''))
rf("cg-sanitize-color-helper", (CG, '''            try:
                background_color = Color.from_hex(background)
            except InvalidHexColorLiteralError as e:
                msg = f"Invalid hex color literal: {e!r}"
                raise click.BadOptionUsage("background", msg) from e

            try:
                foreground_color = Color.from_hex(foreground)
            except InvalidHexColorLiteralError as e:
                msg = f"Invalid hex color literal: {e!r}"
                raise click.BadOptionUsage("foreground", msg) from e

            style_obj = Style(
                background=background_color,
                foreground=foreground_color,
            )
''', '''            style_obj = Style(
                background=_parse_color("background", background),
                foreground=_parse_color("foreground", foreground),
            )
'''), (CG, '''def _sanitize_style(
''', '''def _parse_color(option_name: str, literal: str) -> Color:
    try:
        color = Color.from_hex(literal)
    except InvalidHexColorLiteralError as e:
        msg = f"Invalid hex color literal: {e!r}"
        raise click.BadOptionUsage(option_name, msg) from e
    return color


def _sanitize_style(
'''))
rf("cg-missing-first", (CG, '''            if foreground is None or background is None:
                option_name = "foreground" if foreground is None else "background"
                msg = (
                    "When using CUSTOM style, both foreground and background must be "
                    "specified."
                )
                raise click.BadOptionUsage(option_name, msg)
''', '''            msg = (
                "When using CUSTOM style, both foreground and background must be "
                "specified."
            )
            if foreground is None:
                raise click.BadOptionUsage("foreground", msg)
            if background is None:
                raise click.BadOptionUsage("background", msg)
'''))
rf("cg-tiff-opts", (CG, '''        opts: dict[str, Any] = {"compression": compression}
        if compression == "jpeg":
            opts["quality"] = quality

        result.save_tiff(output, **opts)
''', '''        if compression == "jpeg":
            result.save_tiff(output, compression=compression, quality=quality)
        else:
            result.save_tiff(output, compression=compression)
'''))
rf("cg-tiff-opts-expr", (CG, '''        opts: dict[str, Any] = {"compression": compression}
        if compression == "jpeg":
            opts["quality"] = quality

        result.save_tiff(output, **opts)
''', '''        extra = {"quality": quality} if compression == "jpeg" else {}
        result.save_tiff(output, compression=compression, **extra)
'''))
rf("cg-format-write", (CG, '''    output_path = Path(output)
    formatted = GerberFile.from_file(source).formats(options=options)

    with output_path.open("w") as f:
        f.write(formatted)
''', '''    formatted = GerberFile.from_file(source).formats(options=options)
    with Path(output).open("w") as destination:
        destination.write(formatted)
'''))
rf("cg-format-early", (CG, '''        config_path = Path(config)
        if config_path.suffix == ".json":
            inline_config = config_path.read_text("utf-8")
        else:
            msg = "Only JSON configuration files are supported."
            raise click.BadOptionUsage("config", msg)

    options: Optional[formatter.Options] = None

    if inline_config is not None:
        if config_type == "json":
            options = formatter.Options(**json.loads(inline_config))
        else:
            raise NotImplementedError
''', '''        inline_config = _read_config(Path(config))

    options = (
        formatter.Options(**json.loads(inline_config))
        if inline_config is not None
        else None
    )
'''), (CG, '''    config_type: Literal["json"] = "json"

''', ''), (CG, '''@gerber.command("format")
''', '''def _read_config(path: Path) -> str:
    if path.suffix != ".json":
        msg = "Only JSON configuration files are supported."
        raise click.BadOptionUsage("config", msg)
    return path.read_text("utf-8")


@gerber.command("format")
'''))
rf("cg-format-both-first", (CG, '''    if config is not None:
        if inline_config is not None:
            msg = (
                "Both --config and --inline-config options cannot be used at the "
                "same time."
            )
            raise click.BadOptionUsage("inline-config", msg)

        config_path''', '''    if config is not None and inline_config is not None:
        msg = "Both --config and --inline-config options cannot be used at the same time."
        raise click.BadOptionUsage("inline-config", msg)

    if config is not None:
        config_path'''))
rf("cg-merge-list", *_all(CG, '''    view = CompositeView(
        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
        for source in sources
    )
''', '''    files = [
        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
        for source in sources
    ]
    view = CompositeView(files)
'''))
rf("cg-merge-helper", *_all(CG, '''    view = CompositeView(
        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
        for source in sources
    )
''', '''    view = _composite(sources, file_type)
''', (CG, '''@gerber.group("merge-convert")
''', '''def _composite(sources: Iterable[str], file_type: str) -> CompositeView:
    return CompositeView(
        GerberFile.from_file(path, file_type=FileTypeEnum[file_type.upper()])
        for path in sources
    )


@gerber.group("merge-convert")
''')))
rf("cg-lint-rules-comp", (CG, '''    def _parse_rules(rules: list[str]) -> Iterable[str]:
        for rule in rules:
            yield from rule.split(",")

    rules = list(_parse_rules(rules))
''', '''    rules = [name for group in rules for name in group.split(",")]
'''))
rf("cg-lint-rules-loop", (CG, '''    def _parse_rules(rules: list[str]) -> Iterable[str]:
        for rule in rules:
            yield from rule.split(",")

    rules = list(_parse_rules(rules))
''', '''    selected: list[str] = []
    for rule in rules:
        selected.extend(rule.split(","))
    rules = selected
'''))
rf("cg-lint-echo-helper", (CG, '''        ast = parse(path.read_text())
        violations = lint(ast, rules=rules)

        for violation in violations:
            click.echo(
                f"{path.as_posix()}:{violation.line}:{violation.column} "
                f"{violation.rule_id}: {violation.title}"
            )
''', '''        for violation in lint(parse(path.read_text()), rules=rules):
            location = f"{path.as_posix()}:{violation.line}:{violation.column}"
            click.echo(f"{location} {violation.rule_id}: {violation.title}")
'''), (CG, '''    if len(files) == 0:
''', '''    if not files:
'''))
rf("cg-list-items", (CG, '''    for rule_id in RULE_REGISTRY:
        if quiet:
            click.echo(rule_id)
        else:
            rule = RULE_REGISTRY[rule_id]()
            click.echo(f"{rule_id}: {rule.get_violation_title()}")''', '''    for rule_id, rule_class in RULE_REGISTRY.items():
        if quiet:
            click.echo(rule_id)
            continue
        title = rule_class().get_violation_title()
        click.echo(f"{rule_id}: {title}")'''))
rf("cg-list-text", (CG, '''        if quiet:
            click.echo(rule_id)
        else:
            rule = RULE_REGISTRY[rule_id]()
            click.echo(f"{rule_id}: {rule.get_violation_title()}")''', '''        text = rule_id
        if not quiet:
            text = f"{text}: {RULE_REGISTRY[rule_id]().get_violation_title()}"
        click.echo(text)'''))
