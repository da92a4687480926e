GF = "gerber/api/_gerber_file.py"; EN = "gerber/api/_enums.py"; CV = "gerber/api/_composite_view.py"; JF = "gerber/api/_gerber_job_file.py"
rf("api-mm-helper", *[(GF, f'''        return self.{n} if self.units == Units.Millimeters else self.{n} * 25.4
''', f'''        return self._to_mm(self.{n})
''') for n in ("min_x", "min_y", "max_x", "max_y")], (GF, '''    @pp.cached_property
    def min_x_mm(''', '''    def _to_mm(self, value: float) -> float:
        if self.units == Units.Inches:
            return value * 25.4
        return value

    @pp.cached_property
    def min_x_mm('''))
rf("api-mm-scale", *[(GF, f'''        return self.{n} if self.units == Units.Millimeters else self.{n} * 25.4
''', f'''        return self.{n} * self._scale
''') for n in ("min_x", "max_x")], (GF, '''    @pp.cached_property
    def min_x_mm(''', '''    @property
    def _scale(self) -> float:
        return 1 if self.units == Units.Millimeters else 25.4

    @pp.cached_property
    def min_x_mm('''))
rf("api-space-box", (GF, '''        self._min_x = box.min_x
        self._min_y = box.min_y
        self._max_x = box.max_x
        self._max_y = box.max_y
''', '''        self._min_x, self._min_y = box.min_x, box.min_y
        self._max_x, self._max_y = box.max_x, box.max_y
'''))
rf("api-pixels-helper", *[(GF, f'''        return int(self.{n}_mm * self.dpmm)
''', f'''        return self._pixels(self.{n}_mm)
''') for n in ("min_x", "min_y", "max_x", "max_y")], (GF, '''    @pp.cached_property
    def min_x_pixels(''', '''    def _pixels(self, millimeters: float) -> int:
        return int(self._dpmm * millimeters)

    @pp.cached_property
    def min_x_pixels('''))
rf("api-save-dict", (GF, '''        if file_format.casefold() == "bmp".casefold():
            self.save_bmp(destination, **kwargs)
        elif file_format.casefold() == "png".casefold():
            self.save_png(destination, **kwargs)
        elif file_format.casefold() == "jpeg".casefold():
            self.save_jpeg(destination, **kwargs)
        elif file_format.casefold() == "tiff".casefold():
            self.save_tiff(destination, **kwargs)
        elif file_format.casefold() == "webp".casefold():
            self.save_webp(destination, **kwargs)
        else:
            raise NotImplementedError(file_format)
''', '''        savers = {
            "bmp": self.save_bmp,
            "png": self.save_png,
            "jpeg": self.save_jpeg,
            "tiff": self.save_tiff,
            "webp": self.save_webp,
        }
        saver = savers.get(file_format.casefold())
        if saver is None:
            raise NotImplementedError(file_format)
        saver(destination, **kwargs)
'''))
rf("api-save-early", (GF, '''        if file_format.casefold() == "bmp".casefold():
            self.save_bmp(destination, **kwargs)
        elif file_format.casefold() == "png".casefold():
            self.save_png(destination, **kwargs)
        elif file_format.casefold() == "jpeg".casefold():
            self.save_jpeg(destination, **kwargs)
        elif file_format.casefold() == "tiff".casefold():
            self.save_tiff(destination, **kwargs)
        elif file_format.casefold() == "webp".casefold():
            self.save_webp(destination, **kwargs)
        else:
            raise NotImplementedError(file_format)
''', '''        normalized = file_format.casefold()
        if normalized not in ("bmp", "png", "jpeg", "tiff", "webp"):
            raise NotImplementedError(file_format)
        if normalized == "bmp":
            return self.save_bmp(destination, **kwargs)
        if normalized == "png":
            return self.save_png(destination, **kwargs)
        if normalized == "jpeg":
            return self.save_jpeg(destination, **kwargs)
        if normalized == "tiff":
            return self.save_tiff(destination, **kwargs)
        return self.save_webp(destination, **kwargs)
'''))
rf("api-save-match", (GF, '''        if file_format.casefold() == "bmp".casefold():
            self.save_bmp(destination, **kwargs)
        elif file_format.casefold() == "png".casefold():
            self.save_png(destination, **kwargs)
        elif file_format.casefold() == "jpeg".casefold():
            self.save_jpeg(destination, **kwargs)
        elif file_format.casefold() == "tiff".casefold():
            self.save_tiff(destination, **kwargs)
        elif file_format.casefold() == "webp".casefold():
            self.save_webp(destination, **kwargs)
        else:
            raise NotImplementedError(file_format)
''', '''        match file_format.casefold():
            case "bmp":
                save = self.save_bmp
            case "png":
                save = self.save_png
            case "jpeg":
                save = self.save_jpeg
            case "tiff":
                save = self.save_tiff
            case "webp":
                save = self.save_webp
            case _:
                raise NotImplementedError(file_format)
        save(destination, **kwargs)
'''))
rf("api-save-helper", *[(GF, f'''        self.get_image().save(fp=destination, format="{n}", **kwargs)
''', f'''        self._save(destination, "{n}", kwargs)
''') for n in ("BMP", "PNG", "TIFF")], *[(GF, f'''        self.get_image().convert("RGB").save(fp=destination, format="{n}", **kwargs)
''', f'''        self._save(destination, "{n}", kwargs, rgb=True)
''') for n in ("JPEG", "WEBP")], (GF, '''    def save_bmp(''', '''    def _save(
        self,
        destination: str | Path | BinaryIO,
        file_format: str,
        options: dict[str, Any],
        *,
        rgb: bool = False,
    ) -> None:
        image = self.get_image()
        if rgb:
            image = image.convert("RGB")
        image.save(fp=destination, format=file_format, **options)

    def save_bmp('''))
rf("api-save-svg-delegates", (GF, '''        """Write rendered image as SVG to location or buffer.

        Parameters
        ----------
        destination : str | Path
            `str` and `Path` objects are interpreted as file paths and opened with
            truncation. `TextIO`-like (files, StringIO) objects are written to directly.

        """
        self._result.save_svg(destination, self._style)
''', '''        """Write rendered image as SVG to location or buffer."""
        self.save_svg(destination)
'''))
rf("api-init-flush", (GF, '''        self._cached_ast: Optional[File] = None
        self._cached_rvmc: Optional[RVMC] = None
        self._cached_final_state: Optional[State] = None
        self._color_map''', '''        self._flush_cached()
        self._color_map'''))
rf("api-flush-multi", (GF, '''        self._cached_ast = None
        self._cached_rvmc = None
        self._cached_final_state = None

    @classmethod''', '''        self._cached_ast = self._cached_rvmc = self._cached_final_state = None

    @classmethod'''))
rf("api-from-file-nested", (GF, '''        file_path = Path(file_path)
        if file_type == FileTypeEnum.INFER_FROM_EXTENSION:
            file_type = FileTypeEnum.infer_from_extension(file_path.suffix)

        if file_type == FileTypeEnum.INFER:
            file_type = FileTypeEnum.infer_from_extension(file_path.suffix)
            if file_type == FileTypeEnum.UNDEFINED:
                file_type = FileTypeEnum.INFER_FROM_ATTRIBUTES

        return cls(file_path.read_text(encoding="utf-8"), file_type, file_path)
''', '''        path = Path(file_path)
        source_code = path.read_text(encoding="utf-8")
        return cls(source_code, cls._resolve_type(path, file_type), path)

    @staticmethod
    def _resolve_type(path: Path, file_type: FileTypeEnum) -> FileTypeEnum:
        if file_type not in (FileTypeEnum.INFER_FROM_EXTENSION, FileTypeEnum.INFER):
            return file_type

        inferred = FileTypeEnum.infer_from_extension(path.suffix)
        if file_type == FileTypeEnum.INFER and inferred == FileTypeEnum.UNDEFINED:
            return FileTypeEnum.INFER_FROM_ATTRIBUTES
        return inferred
'''))
rf("api-from-str-helper", *_all(GF, '''        if file_type == FileTypeEnum.INFER_FROM_EXTENSION:
            file_type = FileTypeEnum.UNDEFINED
        return cls(''', '''        file_type = cls._without_extension(file_type)
        return cls(''', [(GF, '''    @classmethod
    def from_str(''', '''    @staticmethod
    def _without_extension(file_type: FileTypeEnum) -> FileTypeEnum:
        return (
            FileTypeEnum.UNDEFINED
            if file_type == FileTypeEnum.INFER_FROM_EXTENSION
            else file_type
        )

    @classmethod
    def from_str(''')]))
rf("api-from-buffer-str", (GF, '''        if file_type == FileTypeEnum.INFER_FROM_EXTENSION:
            file_type = FileTypeEnum.UNDEFINED
        return cls(buffer.read(), file_type, "@buffer")
''', '''        source_code = buffer.read()
        if file_type is FileTypeEnum.INFER_FROM_EXTENSION:
            return cls(source_code, FileTypeEnum.UNDEFINED, "@buffer")
        return cls(source_code, file_type, "@buffer")
'''))
rf("api-final-state-early", (GF, '''        if self._cached_final_state is None:
            self._cached_final_state = get_final_state(self._get_ast())

        return self._cached_final_state
''', '''        if self._cached_final_state is not None:
            return self._cached_final_state

        state = get_final_state(self._get_ast())
        self._cached_final_state = state
        return state
'''))
rf("api-rvmc-inline", (GF, '''        ast = self._get_ast()

        if self._cached_rvmc is None:
            self._cached_rvmc = compile(ast, **self._compiler_options)

        assert self._cached_rvmc is not None
        return self._cached_rvmc
''', '''        ast = self._get_ast()
        rvmc = self._cached_rvmc
        if rvmc is None:
            rvmc = self._cached_rvmc = compile(ast, **self._compiler_options)
        return rvmc
'''))
rf("api-set-options-order", (GF, '''        self._flush_cached()
        self._parser_options = options
        return self
''', '''        self._parser_options = options
        self._flush_cached()
        return self
'''))
rf("api-set-options-copy", (GF, '''        self._flush_cached()
        self._compiler_options = options
        return self
''', '''        self._compiler_options = dict(options)
        self._flush_cached()
        return self
'''))
rf("api-render-helper", (GF, '''        return PillowImage(
            image_space=ImageSpace(
                units=self._get_final_state().unit_mode,
                box=result.main_box,
                dpmm=dpmm,
            ),
            image=result.get_image(style=style),
        )
''', '''        image = result.get_image(style=style)
        return PillowImage(self._image_space(result.main_box, dpmm), image)

    def _image_space(self, box: Box, dpmm: int) -> ImageSpace:
        return ImageSpace(self._get_final_state().unit_mode, box, dpmm)
'''), (GF, '''        return ShapelyImage(
            image_space=ImageSpace(
                units=self._get_final_state().unit_mode,
                box=result.main_box,
                dpmm=0,
            ),
            result=result,
            style=style,
        )
''', '''        return ShapelyImage(
            image_space=self._image_space(result.main_box, 0),
            result=result,
            style=style,
        )
'''))
rf("api-render-inline-rvmc", (GF, '''        rvmc = self._get_rvmc()
        result = render(rvmc, backend="shapely")
''', '''        result = render(self._get_rvmc(), backend="shapely")
'''))
rf("api-style-nested", (GF, '''        if style is not None:
            return style

        if self._file_type in (FileTypeEnum.INFER_FROM_EXTENSION, FileTypeEnum.INFER):
            self._file_type = self._get_file_type_from_extension()

        if self._file_type in (FileTypeEnum.INFER_FROM_ATTRIBUTES, FileTypeEnum.INFER):
            self._file_type = self._get_file_type_from_attributes()

        return self._color_map[self._file_type]
''', '''        if style is None:
            self._infer_file_type()
            style = self._color_map[self._file_type]
        return style

    def _infer_file_type(self) -> None:
        if self._file_type in (FileTypeEnum.INFER_FROM_EXTENSION, FileTypeEnum.INFER):
            self._file_type = self._get_file_type_from_extension()

        if self._file_type in (FileTypeEnum.INFER_FROM_ATTRIBUTES, FileTypeEnum.INFER):
            self._file_type = self._get_file_type_from_attributes()
'''))
rf("api-ext-merged", (GF, '''        if not isinstance(self._source_type_or_path, Path):
            if self._file_type == FileTypeEnum.INFER_FROM_EXTENSION:
                return FileTypeEnum.UNDEFINED

            if self._file_type == FileTypeEnum.INFER:
                return FileTypeEnum.INFER_FROM_ATTRIBUTES

            raise NotImplementedError(self._file_type)

        file_type = FileTypeEnum.infer_from_extension(self._source_type_or_path.suffix)

        if file_type == FileTypeEnum.UNDEFINED:
            if self._file_type == FileTypeEnum.INFER_FROM_EXTENSION:
                return file_type

            if self._file_type == FileTypeEnum.INFER:
                return FileTypeEnum.INFER_FROM_ATTRIBUTES

            raise NotImplementedError(self._file_type)

        return file_type
''', '''        file_type = FileTypeEnum.UNDEFINED
        if isinstance(self._source_type_or_path, Path):
            file_type = FileTypeEnum.infer_from_extension(
                self._source_type_or_path.suffix
            )

        if file_type != FileTypeEnum.UNDEFINED:
            return file_type

        if self._file_type == FileTypeEnum.INFER_FROM_EXTENSION:
            return FileTypeEnum.UNDEFINED

        if self._file_type == FileTypeEnum.INFER:
            return FileTypeEnum.INFER_FROM_ATTRIBUTES

        raise NotImplementedError(self._file_type)
'''))
rf("api-attr-in", (GF, '''        file_function_node = self._get_final_state().attributes.file_attributes.get(
            ".FileFunction"
        )
        if file_function_node is None:
            return FileTypeEnum.UNDEFINED

        assert isinstance(file_function_node, TF_FileFunction)
        return FileTypeEnum.infer_from_attributes(
            file_function_node.file_function.value
        )
''', '''        attributes = self._get_final_state().attributes.file_attributes
        if ".FileFunction" not in attributes:
            return FileTypeEnum.UNDEFINED

        node = attributes[".FileFunction"]
        assert isinstance(node, TF_FileFunction)
        return FileTypeEnum.infer_from_attributes(node.file_function.value)
'''))
rf("api-attr-try", (GF, '''        file_function_node = self._get_final_state().attributes.file_attributes.get(
            ".FileFunction"
        )
        if file_function_node is None:
            return FileTypeEnum.UNDEFINED

        assert''', '''        attributes = self._get_final_state().attributes.file_attributes
        try:
            file_function_node = attributes[".FileFunction"]
        except KeyError:
            return FileTypeEnum.UNDEFINED

        assert'''))
rf("api-sha-steps", (GF, '''        return hashlib.sha256(self._source_code.encode("utf-8")).hexdigest()
''', '''        digest = hashlib.sha256()
        digest.update(self._source_code.encode("utf-8"))
        return digest.hexdigest()
'''))
rf("en-missing-dict", (EN, '''        if value == "SOLDERPASTE":
            return cls.PASTE

        return cls.UNDEFINED
''', '''        return cls.PASTE if value == "SOLDERPASTE" else cls.UNDEFINED
'''))
rf("en-ext-regex-or", (EN, '''        if re.match(r"\\.g[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gp[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gm[0-9]+", extension):
            return FileTypeEnum.COPPER

        return''', '''        if (
            re.match(r"\\.g[0-9]+", extension)
            or re.match(r"\\.gp[0-9]+", extension)
            or re.match(r"\\.gm[0-9]+", extension)
        ):
            return FileTypeEnum.COPPER

        return'''))
rf("en-ext-regex-any", (EN, '''        if re.match(r"\\.g[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gp[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gm[0-9]+", extension):
            return FileTypeEnum.COPPER

        return''', '''        patterns = (r"\\.g[0-9]+", r"\\.gp[0-9]+", r"\\.gm[0-9]+")
        if any(re.match(pattern, extension) for pattern in patterns):
            return FileTypeEnum.COPPER

        return'''))
rf("en-ext-regex-for", (EN, '''        if re.match(r"\\.g[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gp[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gm[0-9]+", extension):
            return FileTypeEnum.COPPER

        return''', '''        for prefix in ("g", "gp", "gm"):
            if re.match(rf"\\.{prefix}[0-9]+", extension) is not None:
                return FileTypeEnum.COPPER

        return'''))
rf("en-ext-single-regex", (EN, '''        if re.match(r"\\.g[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gp[0-9]+", extension):
            return FileTypeEnum.COPPER

        if re.match(r"\\.gm[0-9]+", extension):
            return FileTypeEnum.COPPER

        return''', '''        if re.match(r"\\.g[pm]?[0-9]+", extension):
            return FileTypeEnum.COPPER

        return'''))
rf("en-attrs-index", (EN, '''        function, *_ = file_function.split(",")
        function = function.upper()

        try:
            return FileTypeEnum(function)
''', '''        function = file_function.split(",")[0].upper()

        try:
            return cls(function)
'''))
rf("en-attrs-partition", (EN, '''        function, *_ = file_function.split(",")
        function = function.upper()
''', '''        function, _, _ = file_function.partition(",")
        function = function.upper()
'''))
rf("cv-bounds-min-first", (CV, '''        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)

        width_pixels = (
            max_x_image.get_image_space().max_x_pixels
            - min_x_image.get_image_space().min_x_pixels
        )
        height_pixels = (
            max_y_image.get_image_space().max_y_pixels
            - min_y_image.get_image_space().min_y_pixels
        )

        image = Image.new("RGBA", (width_pixels, height_pixels))

        for sub_image in sub_images:
            image.paste(
                sub_image.get_image(),
                (
                    abs(
                        min_x_image.get_image_space().min_x_pixels
                        - sub_image.get_image_space().min_x_pixels
                    ),
                    abs(
                        max_y_image.get_image_space().max_y_pixels
                        - sub_image.get_image_space().max_y_pixels
                    ),
                ),
                mask=sub_image.get_image().getchannel("A"),
            )

        return CompositePillowImage(sub_images, image)
''', '''        min_x_image = min(sub_images, key=lambda i: i.get_image_space().min_x_mm)
        min_y_image = min(sub_images, key=lambda i: i.get_image_space().min_y_mm)
        max_x_image = max(sub_images, key=lambda i: i.get_image_space().max_x_mm)
        max_y_image = max(sub_images, key=lambda i: i.get_image_space().max_y_mm)

        left = min_x_image.get_image_space().min_x_pixels
        right = max_x_image.get_image_space().max_x_pixels
        top = max_y_image.get_image_space().max_y_pixels
        bottom = min_y_image.get_image_space().min_y_pixels

        image = Image.new("RGBA", (right - left, top - bottom))

        for sub_image in sub_images:
            picture = sub_image.get_image()
            space = sub_image.get_image_space()
            offset = (abs(left - space.min_x_pixels), abs(top - space.max_y_pixels))
            image.paste(picture, offset, mask=picture.getchannel("A"))

        return CompositePillowImage(sub_images, image)
'''))
rf("cv-spaces-list", (CV, '''        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)
''', '''        def edge(select, name):  # type: ignore[no-untyped-def]
            return select(
                sub_images, key=lambda image: getattr(image.get_image_space(), name)
            )

        max_x_image = edge(max, "max_x_mm")
        max_y_image = edge(max, "max_y_mm")
        min_x_image = edge(min, "min_x_mm")
        min_y_image = edge(min, "min_y_mm")
'''))
rf("cv-paste-helper", (CV, '''        for sub_image in sub_images:
            image.paste(
                sub_image.get_image(),
                (
                    abs(
                        min_x_image.get_image_space().min_x_pixels
                        - sub_image.get_image_space().min_x_pixels
                    ),
                    abs(
                        max_y_image.get_image_space().max_y_pixels
                        - sub_image.get_image_space().max_y_pixels
                    ),
                ),
                mask=sub_image.get_image().getchannel("A"),
            )

        return CompositePillowImage(sub_images, image)
''', '''        left = min_x_image.get_image_space().min_x_pixels
        upper = max_y_image.get_image_space().max_y_pixels
        for sub_image in sub_images:
            self._paste(image, sub_image, left, upper)

        return CompositePillowImage(sub_images, image)

    @staticmethod
    def _paste(target: Image.Image, sub: PillowImage, left: int, upper: int) -> None:
        space = sub.get_image_space()
        x = abs(space.min_x_pixels - left)
        y = abs(upper - space.max_y_pixels)
        target.paste(sub.get_image(), (x, y), mask=sub.get_image().getchannel("A"))
'''))
rf("cv-append-loop", (CV, '''        sub_images: list[PillowImage] = [
            file.render_with_pillow(dpmm=dpmm) for file in self.files
        ]
''', '''        sub_images: list[PillowImage] = []
        for file in self._files:
            sub_images.append(file.render_with_pillow(dpmm=dpmm))
'''))
rf("jf-context-get", (JF, '''        if __context is not None and "__file_path__" in __context:
            self.__file_path__ = Path(__context["__file_path__"])
        return super().model_post_init(__context)
''', '''        context = __context or {}
        if "__file_path__" in context:
            self.__file_path__ = Path(context["__file_path__"])
        return super().model_post_init(__context)
'''))
rf("jf-root-early", (JF, '''        root_path = self.__file_path__ or path

        if root_path is None:
            raise PathToGerberJobProjectNotDefinedError(self)

        root_path = root_path.parent
''', '''        job_path = self.__file_path__ or path
        if job_path is None:
            raise PathToGerberJobProjectNotDefinedError(self)
        root_path = job_path.parent
'''))
rf("jf-elif", (JF, '''            if file_type == FileTypeEnum.PROFILE:
                all_layers.append(gerber_file)
                continue

            if "TOP" in split_file_function:
                top[file_type] = gerber_file
                continue

            if "BOT" in split_file_function:
                bottom[file_type] = gerber_file
                continue

            for part in split_file_function:
                match = layer_identifier_regex.match(part)
                if match is not None:
                    layer = match.group(1)
                    inner_layer = inner.get(layer, {})

                    inner_layer[file_type] = gerber_file

                    inner[layer] = inner_layer
                    break
            else:
                logging.warning("Could not determine layer for file %s", file.path)
''', '''            if file_type == FileTypeEnum.PROFILE:
                all_layers.append(gerber_file)
            elif "TOP" in split_file_function:
                top[file_type] = gerber_file
            elif "BOT" in split_file_function:
                bottom[file_type] = gerber_file
            else:
                for part in split_file_function:
                    match = layer_identifier_regex.match(part)
                    if match is not None:
                        inner.setdefault(match.group(1), {})[file_type] = gerber_file
                        break
                else:
                    logging.warning("Could not determine layer for file %s", file.path)
'''))
rf("jf-order-table", (JF, '''            ordered_files: list[GerberFile] = []

            if (file := file_map.get(FileTypeEnum.COPPER)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.MASK)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.SOLDERMASK)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.PASTE)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.SILK)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.LEGEND)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.PROFILE)) is not None:
                ordered_files.append(file)

            return ordered_files
''', '''            order = (
                FileTypeEnum.COPPER,
                FileTypeEnum.MASK,
                FileTypeEnum.SOLDERMASK,
                FileTypeEnum.PASTE,
                FileTypeEnum.SILK,
                FileTypeEnum.LEGEND,
                FileTypeEnum.PROFILE,
            )
            return [file_map[kind] for kind in order if kind in file_map]
'''))
rf("jf-order-const", (JF, '''            ordered_files: list[GerberFile] = []

            if (file := file_map.get(FileTypeEnum.COPPER)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.MASK)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.SOLDERMASK)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.PASTE)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.SILK)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.LEGEND)) is not None:
                ordered_files.append(file)

            if (file := file_map.get(FileTypeEnum.PROFILE)) is not None:
                ordered_files.append(file)

            return ordered_files
''', '''            ordered_files: list[GerberFile] = []
            for kind in _VIEW_ORDER:
                file = file_map.get(kind)
                if file is not None:
                    ordered_files.append(file)
            return ordered_files
'''), (JF, '''class GerberJobFile(''', '''_VIEW_ORDER = [
    FileTypeEnum.COPPER,
    FileTypeEnum.MASK,
    FileTypeEnum.SOLDERMASK,
    FileTypeEnum.PASTE,
    FileTypeEnum.SILK,
    FileTypeEnum.LEGEND,
    FileTypeEnum.PROFILE,
]


class GerberJobFile('''))
rf("jf-layers-method", (JF, '''        for file in all_layers:
            top[file.file_type] = file
            bottom[file.file_type] = file

            for inner_layer in inner.values():
                inner_layer[file.file_type] = file
''', '''        for file in all_layers:
            for layer_map in (top, bottom, *inner.values()):
                layer_map[file.file_type] = file
'''))
