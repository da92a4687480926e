LD = "gerber/language_server/_server/documents/gerber.py"; LC = "gerber/language_server/_server/document_cache.py"; LSV = "gerber/language_server/_server/server.py"; LDD = "gerber/language_server/_server/documents/document.py"
rf("ls-load-hash-once", (LD, '''        self.ast = self.parser.parse(code)
        self.source_hash = sha256(code)

        self.log_info(f"Parsed AST for {self.uri} (sha256: {self.source_hash})")
        return self.ast
''', '''        ast = self.parser.parse(code)
        self.ast = ast
        self.source_hash = code_hash

        self.log_info(f"Parsed AST for {self.uri} (sha256: {code_hash})")
        return ast
'''))
rf("ls-load-changed", (LD, '''        code_hash = sha256(code)

        if code_hash == self.source_hash and self.ast is not None:
            return self.ast

        self.ast = self.parser.parse(code)
        self.source_hash = sha256(code)

        self.log_info(f"Parsed AST for {self.uri} (sha256: {self.source_hash})")
        return self.ast
''', '''        code_hash = sha256(code)

        if self.ast is None or code_hash != self.source_hash:
            self.ast = self.parser.parse(code)
            self.source_hash = code_hash
            self.log_info(f"Parsed AST for {self.uri} (sha256: {self.source_hash})")

        return self.ast
'''))
rf("ls-load-uri-inline", (LD, '''        code = self.gls.workspace.get_document(uri)
        return self.load_ast_from_code(code.source)
''', '''        document = self.gls.workspace.get_document(uri)
        source = document.source
        return self.load_ast_from_code(source)
'''))
rf("ls-hover-helper", (LD, '''        position = ZeroBasedPosition(
            line=params.position.line, column=params.position.character
        ).to_one_based()

        if self.ast is None:
            return None

        node = NodeFinder(self.ast).find_node(position)

        if node is None:
            return None
''', '''        node = self._find_node(params.position)
        if node is None:
            return None
'''), (LD, '''        if self.ast is None:
            return None

        position = ZeroBasedPosition(
            line=params.position.line, column=params.position.character
        ).to_one_based()
        node = NodeFinder(self.ast).find_node(position)
        self.gls''', '''        if self.ast is None:
            return None

        node = self._find_node(params.position)
        self.gls'''), (LD, '''    def get_completion_apertures(self)''', '''    def _find_node(self, position):  # type: ignore[no-untyped-def]
        if self.ast is None:
            return None

        start = ZeroBasedPosition(line=position.line, column=position.character)
        return NodeFinder(self.ast).find_node(start.to_one_based())

    def get_completion_apertures(self)'''))
rf("ls-hover-range", (LD, '''        source_info = node.source_info
        if source_info is None:
            return None

        return lspt.Hover(
            contents=lspt.MarkupContent(value=message, kind=lspt.MarkupKind.Markdown),
            range=lspt.Range(
                start=lspt.Position(source_info.line - 1, source_info.column - 1),
                end=lspt.Position(source_info.end_line - 1, source_info.end_column - 1),
            ),
        )
''', '''        if node.source_info is None:
            return None

        info = node.source_info
        contents = lspt.MarkupContent(value=message, kind=lspt.MarkupKind.Markdown)
        start = lspt.Position(info.line - 1, info.column - 1)
        end = lspt.Position(info.end_line - 1, info.end_column - 1)
        return lspt.Hover(contents=contents, range=lspt.Range(start=start, end=end))
'''))
rf("ls-hover-range-helper", (LD, '''            range=lspt.Range(
                start=lspt.Position(source_info.line - 1, source_info.column - 1),
                end=lspt.Position(source_info.end_line - 1, source_info.end_column - 1),
            ),
        )

    async def on_completion(''', '''            range=self._range_of(source_info),
        )

    @staticmethod
    def _range_of(source_info):  # type: ignore[no-untyped-def]
        return lspt.Range(
            start=lspt.Position(source_info.line - 1, source_info.column - 1),
            end=lspt.Position(source_info.end_line - 1, source_info.end_column - 1),
        )

    async def on_completion('''))
rf("ls-completion-startswith", (LD, '''        if re.match(r"G\\d*", node.string):
            return self.get_completion_g_codes()

        if re.match(r"D\\d*", node.string):
            return self.get_completion_apertures()

        if re.match(r"%", node.string):
            return self.get_completion_extended_command()
''', '''        text = node.string
        if text.startswith("G"):
            return self.get_completion_g_codes()

        if text.startswith("D"):
            return self.get_completion_apertures()

        if text.startswith("%"):
            return self.get_completion_extended_command()
'''))
rf("ls-completion-table", (LD, '''        if re.match(r"G\\d*", node.string):
            return self.get_completion_g_codes()

        if re.match(r"D\\d*", node.string):
            return self.get_completion_apertures()

        if re.match(r"%", node.string):
            return self.get_completion_extended_command()
''', '''        for pattern, handler in (
            (r"G\\d*", self.get_completion_g_codes),
            (r"D\\d*", self.get_completion_apertures),
            (r"%", self.get_completion_extended_command),
        ):
            if re.match(pattern, node.string):
                return handler()
'''))
rf("ls-completion-split-cond", (LD, '''        if not isinstance(node, Invalid) or len(node.string) == 0:
            return None
''', '''        if not isinstance(node, Invalid):
            return None
        if not node.string:
            return None
'''))
rf("ls-apertures-helper", (LD, '''        for name, node in state.apertures.apertures.items():
            out = StringIO()
            formatter.format(File(nodes=[node]), out)

            aperture_completion.append(
                lspt.CompletionItem(
                    label=name,
                    kind=lspt.CompletionItemKind.Function,
                    detail=out.getvalue(),
                )
            )

        for name, node in state.apertures.blocks.items():
            out = StringIO()
            formatter.format(File(nodes=[node.open]), out)

            aperture_completion.append(
                lspt.CompletionItem(
                    label=name,
                    kind=lspt.CompletionItemKind.Method,
                    detail=out.getvalue(),
                )
            )
''', '''        def item(name, node, kind):  # type: ignore[no-untyped-def]
            out = StringIO()
            formatter.format(File(nodes=[node]), out)
            return lspt.CompletionItem(label=name, kind=kind, detail=out.getvalue())

        for name, node in state.apertures.apertures.items():
            aperture_completion.append(
                item(name, node, lspt.CompletionItemKind.Function)
            )

        for name, block in state.apertures.blocks.items():
            aperture_completion.append(
                item(name, block.open, lspt.CompletionItemKind.Method)
            )
'''))
rf("ls-apertures-result", (LD, '''        self.cached_aperture_completion = lspt.CompletionList(
            is_incomplete=False, items=aperture_completion
        )

        return self.cached_aperture_completion
''', '''        completion = lspt.CompletionList(
            is_incomplete=False, items=aperture_completion
        )
        self.cached_aperture_completion = completion
        return completion
'''))
rf("ls-state-early", (LD, '''        if self.state is None:
            visitor = StateTrackingVisitor(ignore_program_stop=True)
            if self.ast is None:
                return None

            self.ast.visit(visitor)
            self.state = visitor.state

        return self.state
''', '''        if self.state is not None:
            return self.state

        if self.ast is None:
            return None

        visitor = StateTrackingVisitor(ignore_program_stop=True)
        self.ast.visit(visitor)
        self.state = visitor.state
        return self.state
'''))
rf("ls-ad-items-helper", (LD, '''        return [
            lspt.CompletionItem(
                label=string,
                kind=lspt.CompletionItemKind.Constructor,
                documentation=doc,
                insert_text=string,
                insert_text_format=lspt.InsertTextFormat.Snippet,
            )
            for string, doc in [
''', '''        def constructor(string, doc):  # type: ignore[no-untyped-def]
            return lspt.CompletionItem(
                label=string,
                kind=lspt.CompletionItemKind.Constructor,
                documentation=doc,
                insert_text=string,
                insert_text_format=lspt.InsertTextFormat.Snippet,
            )

        return [
            constructor(text, documentation)
            for text, documentation in [
'''))
rf("ls-g-item-helper", *_all(LD, '''                lspt.CompletionItem(
                    label="G0''', '''                self._function(
                    label="G0''', (LD, '''    def get_completion_g_codes(self)''', '''    @staticmethod
    def _function(**options):  # type: ignore[no-untyped-def]
        return lspt.CompletionItem(**options)

    def get_completion_g_codes(self)''')))
rf("ls-ext-snippet-helper", (LD, '''                lspt.CompletionItem(
                    label="MOMM*",
                    kind=lspt.CompletionItemKind.Function,
                    documentation="",
                    insert_text="MO${1:MM}*",
                    insert_text_format=lspt.InsertTextFormat.Snippet,
                ),
                lspt.CompletionItem(
                    label="LPD*",
                    kind=lspt.CompletionItemKind.Function,
                    documentation="",
                    insert_text="LP${1:D}*",
                    insert_text_format=lspt.InsertTextFormat.Snippet,
                ),
                lspt.CompletionItem(
                    label="LPC*",
                    kind=lspt.CompletionItemKind.Function,
                    documentation="",
                    insert_text="LP${1:C}*",
                    insert_text_format=lspt.InsertTextFormat.Snippet,
                ),
''', '''                self._snippet("MOMM*", "MO${1:MM}*"),
                self._snippet("LPD*", "LP${1:D}*"),
                self._snippet("LPC*", "LP${1:C}*"),
'''), (LD, '''    def get_completion_g_codes(self)''', '''    def _snippet(self, label: str, text: str) -> lspt.CompletionItem:
        return lspt.CompletionItem(
            label=label,
            kind=lspt.CompletionItemKind.Function,
            documentation="",
            insert_text=text,
            insert_text_format=lspt.InsertTextFormat.Snippet,
        )

    def get_completion_g_codes(self)'''))
rf("ls-cache-pop", (LC, '''        del self.documents[uri]
''', '''        self.documents.pop(uri)
'''))
rf("ls-cache-get-default", (LC, '''        return self.documents.get(uri)
''', '''        if uri in self.documents:
            return self.documents[uri]
        return None
'''))
rf("ls-cache-release-helper", *[(p, '''    async def release(self) -> None:
        with suppress(Exception):
            self.async_lock.release()

        with suppress(Exception):
            self.thread_lock.release()
''', '''    async def release(self) -> None:
        try:
            self.async_lock.release()
        except Exception:  # noqa: BLE001, S110
            pass

        try:
            self.thread_lock.release()
        except Exception:  # noqa: BLE001, S110
            pass
''') for p in (LC, LDD)])
_ = False and rf("ls-release-loop", (LC, '''        with suppress(Exception):
            self.async_lock.release()

        with suppress(Exception):
            self.thread_lock.release()
''' , '''        for lock in (self.async_lock, self.thread_lock):
            with suppress(Exception):
                lock.release()
''')) if False else None
rf("ls-server-get-early", (LSV, '''        wrapped_uri = Path(uri)
        if wrapped_uri.match("*.g*"):
            document = GerberDocument(gls)

        else:
            msg = f"Unsupported document type: {uri!r}"
            raise NotImplementedError(msg)

        async with document:
''', '''        if not Path(uri).match("*.g*"):
            msg = f"Unsupported document type: {uri!r}"
            raise NotImplementedError(msg)

        document = GerberDocument(gls)
        async with document:
'''))
rf("ls-server-client", (LSV, '''        if client_info := params.client_info:
            client_name = client_info.name
            client_version = client_info.version
        else:
            client_name = "Unknown"
            client_version = "Unknown"
''', '''        client_name = client_version = "Unknown"
        client_info = params.client_info
        if client_info:
            client_name, client_version = client_info.name, client_info.version
'''))
rf("ls-server-hover-return", (LSV, '''        try:
            hover = await document.on_hover(params)

        finally:
            await document.release()

        return hover
''', '''        try:
            return await document.on_hover(params)
        finally:
            await document.release()
'''))
rf("ls-server-acquire-helper", *_all(LSV, '''        async with open_documents:
            document = await get_document(params.text_document.uri)
            await document.acquire()

        try:''', '''        document = await acquire_document(params.text_document.uri)

        try:''', (LSV, '''    @gls.feature(lspt.INITIALIZE)
''', '''    async def acquire_document(uri: str) -> Document:
        async with open_documents:
            document = await get_document(uri)
            await document.acquire()
            return document

    @gls.feature(lspt.INITIALIZE)
''')))
