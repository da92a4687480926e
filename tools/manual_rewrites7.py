LI = "gerber/linter/__init__.py"; RU = "gerber/linter/rules/rule.py"; GR1 = "gerber/linter/rules/GRB001.py"; EV = "gerber/linter/event_ast_visitor.py"
NF = "gerber/ast/node_finder.py"; EX = "gerber/ast/expression_eval_visitor.py"; ARC = "vm/commands/shape_segments/arc.py"; STY = "vm/types/style.py"
rf("li-lint-truthy", (LI, '''    if rules is not None and len(rules) != 0:
        rule_objects = [RULE_REGISTRY[rule_id]() for rule_id in rules]
    else:
        rule_objects = [r() for r in RULE_REGISTRY.values()]

    linter = Linter(rule_objects)
    return linter.lint(ast)
''', '''    if rules:
        rule_classes = [RULE_REGISTRY[rule_id] for rule_id in rules]
    else:
        rule_classes = list(RULE_REGISTRY.values())

    return Linter([rule_class() for rule_class in rule_classes]).lint(ast)
'''))
rf("li-lint-select", (LI, '''    if rules is not None and len(rules) != 0:
        rule_objects = [RULE_REGISTRY[rule_id]() for rule_id in rules]
    else:
        rule_objects = [r() for r in RULE_REGISTRY.values()]

    linter = Linter(rule_objects)
''', '''    selected = rules or RULE_REGISTRY
    rule_objects = [RULE_REGISTRY[rule_id]() for rule_id in selected]

    linter = Linter(rule_objects)
'''))
rf("li-lint-loop", (LI, '''    if rules is not None and len(rules) != 0:
        rule_objects = [RULE_REGISTRY[rule_id]() for rule_id in rules]
    else:
        rule_objects = [r() for r in RULE_REGISTRY.values()]
''', '''    rule_objects: list[Rule] = []
    if rules is None or len(rules) == 0:
        for rule_class in RULE_REGISTRY.values():
            rule_objects.append(rule_class())
    else:
        for rule_id in rules:
            rule_objects.append(RULE_REGISTRY[rule_id]())
'''))
rf("li-report-early", (RU, '''        if self.collector is not None:
            violation = RuleViolation(
                rule_id=self.rule_id,
                title=self.get_violation_title(),
                description=self.get_violation_description(),
                start_offset=(source_info.location if source_info is not None else 0),
                end_offset=(
                    source_info.location + source_info.length
                    if source_info is not None
                    else 0
                ),
                line=(source_info.line if source_info is not None else 0),
                column=(source_info.column if source_info is not None else 0),
            )
            self.collector.add_violation(violation)
''', '''        if self.collector is None:
            return

        start_offset = end_offset = line = column = 0
        if source_info is not None:
            start_offset = source_info.location
            end_offset = start_offset + source_info.length
            line, column = source_info.line, source_info.column

        self.collector.add_violation(
            RuleViolation(
                rule_id=self.rule_id,
                title=self.get_violation_title(),
                description=self.get_violation_description(),
                start_offset=start_offset,
                end_offset=end_offset,
                line=line,
                column=column,
            )
        )
'''))
rf("li-grb-name-helper", *_all(GR1, '''        node_name = "G01/G02/G03"
        if self.last_node is not None:
            node_name = self.last_node.__qualname__

''', '''        node_name = self._node_name()
''', (GR1, '''    def get_trigger_nodes(self)''', '''    def _node_name(self) -> str:
        if self.last_node is None:
            return "G01/G02/G03"
        return self.last_node.__qualname__

    def get_trigger_nodes(self)''')))
rf("li-grb-callback", (GR1, '''        if isinstance(node, (G01, G02, G03)) and self.last_node == node.__class__:
            self.report_violation(node.source_info)

        self.last_node = node.__class__
''', '''        node_type = type(node)
        if self.last_node == node_type and isinstance(node, (G01, G02, G03)):
            self.report_violation(node.source_info)
        self.last_node = node_type
'''))
rf("li-listener-setdefault", (EV, '''        listeners = self.listeners.get(node_type, [])
        listeners.append(listener)
        self.listeners[node_type] = listeners
''', '''        self.listeners.setdefault(node_type, []).append(listener)
'''))
rf("li-listener-in", (EV, '''        listeners = self.listeners.get(node_type, [])
        listeners.append(listener)
        self.listeners[node_type] = listeners
''', '''        if node_type not in self.listeners:
            self.listeners[node_type] = []
        self.listeners[node_type].append(listener)
'''))
rf("li-trigger-get-empty", (EV, '''        listeners = self.listeners.get(type(node), None)
        if listeners is not None:
            for listener in listeners:
                listener(node)
''', '''        for listener in self.listeners.get(type(node), ()):
            listener(node)
'''))
rf("li-trigger-early", (EV, '''        listeners = self.listeners.get(type(node), None)
        if listeners is not None:
            for listener in listeners:
                listener(node)
''', '''        node_type = type(node)
        if node_type not in self.listeners:
            return
        for listener in self.listeners[node_type]:
            listener(node)
'''))
rf("li-trigger-rename", *_all(EV, '_trigger_listeners', '_notify'))
rf("nf-file-flat", (NF, '''        if len(node.nodes) == 0:
            return node

        if len(node.nodes) == 1:
            self.return_node = node.nodes[0]
            self.return_node.visit(self)
            return node

        self.return_node = self._bin_search(node.nodes)

        return node
''', '''        count = len(node.nodes)
        if count == 1:
            only = node.nodes[0]
            self.return_node = only
            only.visit(self)
        elif count > 1:
            self.return_node = self._bin_search(node.nodes)

        return node
'''))
rf("nf-search-compare", (NF, '''        if self.location.line == source_info.line:
            if self.location.column == source_info.column:
                return self._bin_search(nodes=[center_node])

            if self.location.column < source_info.column:
                return self._bin_search(nodes=nodes[:center_index])

            return self._bin_search(nodes=nodes[center_index:])

        if self.location.line < source_info.line:
            return self._bin_search(nodes=nodes[:center_index])

        return self._bin_search(nodes=nodes[center_index:])
''', '''        line, column = self.location.line, self.location.column
        if line == source_info.line and column == source_info.column:
            return self._bin_search(nodes=[center_node])

        before = line < source_info.line or (
            line == source_info.line and column < source_info.column
        )
        half = nodes[:center_index] if before else nodes[center_index:]
        return self._bin_search(nodes=half)
'''))
rf("nf-search-tuple", (NF, '''        if self.location.line == source_info.line:
            if self.location.column == source_info.column:
                return self._bin_search(nodes=[center_node])

            if self.location.column < source_info.column:
                return self._bin_search(nodes=nodes[:center_index])

            return self._bin_search(nodes=nodes[center_index:])

        if self.location.line < source_info.line:
            return self._bin_search(nodes=nodes[:center_index])

        return self._bin_search(nodes=nodes[center_index:])
''', '''        wanted = (self.location.line, self.location.column)
        center = (source_info.line, source_info.column)
        if wanted == center:
            return self._bin_search(nodes=[center_node])

        if wanted < center:
            return self._bin_search(nodes=nodes[:center_index])

        return self._bin_search(nodes=nodes[center_index:])
'''))
rf("nf-search-single-helper", (NF, '''        if len(nodes) == 1:
            self.return_node = nodes[0]
            source_info = self.return_node.source_info
            if source_info is not None and self.location.column < source_info.column:
                self.return_node = None
                return None

            self.return_node.visit(self)
            return self.return_node
''', '''        if len(nodes) == 1:
            return self._select(nodes[0])
'''), (NF, '''    def _bin_search(self''', '''    def _select(self, node: Node) -> Optional[Node]:
        self.return_node = node
        source_info = node.source_info
        if source_info is not None and self.location.column < source_info.column:
            self.return_node = None
            return None

        node.visit(self)
        return self.return_node

    def _bin_search(self'''))
rf("nf-container-helper", (NF, '''        self._bin_search([node.open, *node.nodes, node.close])
        return node

    def on_sr(self, node: SR) -> SR:
        """Handle `SR` root node."""
        self._bin_search([node.open, *node.nodes, node.close])
        return node
''', '''        return self._search_container(node, node.nodes)

    def on_sr(self, node: SR) -> SR:
        """Handle `SR` root node."""
        return self._search_container(node, node.nodes)

    def _search_container(self, node, inner):  # type: ignore[no-untyped-def]
        self._bin_search([node.open, *inner, node.close])
        return node
'''))
rf("ex-fold-helper", *[(EX, f'''        node.head.visit(self)
        total = self.return_value

        for operand in node.tail:
            operand.visit(self)
            total {o}= self.return_value

        self.return_value = total
        return node
''', f'''        return self._fold(node, operator.{n})
''') for o, n in (("+", "add"), ("/", "truediv"), ("*", "mul"), ("-", "sub"))], (EX, '''    # Math :: Operators :: Unary
''', '''    def _fold(self, node, apply):  # type: ignore[no-untyped-def]
        node.head.visit(self)
        total = self.return_value
        for operand in node.tail:
            operand.visit(self)
            total = apply(total, self.return_value)
        self.return_value = total
        return node

    # Math :: Operators :: Unary
'''), (EX, '''from typing import''', '''import operator
from typing import'''))
rf("ex-evaluate-operands", (EX, '''        node.head.visit(self)
        total = self.return_value

        for operand in node.tail:
            operand.visit(self)
            total += self.return_value

        self.return_value = total
        return node
''', '''        total = self._value_of(node.head)
        for operand in node.tail:
            total += self._value_of(operand)

        self.return_value = total
        return node

    def _value_of(self, operand: Expression) -> Double:
        operand.visit(self)
        return self.return_value
'''))
rf("ex-scope-or", (EX, '''        self.scope = {} if scope is None else scope
''', '''        if scope is None:
            scope = {}
        self.scope = scope
'''))
rf("ar-valid-locals", (ARC, '''        return (
            self.get_relative_start_point().length()
            == self.get_relative_end_point().length()
        )
''', '''        start_radius = self.get_relative_start_point().length()
        end_radius = self.get_relative_end_point().length()
        return start_radius == end_radius
'''))
rf("ar-box-loop", (ARC, '''        angle_x_plus = relative_start.angle_between(Vector.unit.x) % 360
        angle_y_minus = relative_start.angle_between(-Vector.unit.y) % 360
        angle_x_minus = relative_start.angle_between(-Vector.unit.x) % 360
        angle_y_plus = relative_start.angle_between(Vector.unit.y) % 360

        vectors = [
            Vector(x=0, y=0),
            relative_start,
            self.get_relative_end_point(),
        ]
        if not self.clockwise:
            total_angle = 360 - total_angle
            angle_x_plus = 360 - angle_x_plus
            angle_y_minus = 360 - angle_y_minus
            angle_x_minus = 360 - angle_x_minus
            angle_y_plus = 360 - angle_y_plus

        if angle_x_plus < total_angle:
            vectors.append(Vector(x=radius, y=0))
        if angle_y_minus < total_angle:
            vectors.append(Vector(x=0, y=-radius))
        if angle_x_minus < total_angle:
            vectors.append(Vector(x=-radius, y=0))
        if angle_y_plus < total_angle:
            vectors.append(Vector(x=0, y=radius))
''', '''        vectors = [Vector(x=0, y=0), relative_start, self.get_relative_end_point()]
        if not self.clockwise:
            total_angle = 360 - total_angle

        for direction, extreme in (
            (Vector.unit.x, Vector(x=radius, y=0)),
            (-Vector.unit.y, Vector(x=0, y=-radius)),
            (-Vector.unit.x, Vector(x=-radius, y=0)),
            (Vector.unit.y, Vector(x=0, y=radius)),
        ):
            angle = relative_start.angle_between(direction) % 360
            if not self.clockwise:
                angle = 360 - angle
            if angle < total_angle:
                vectors.append(extreme)
'''))
rf("ar-box-helper", (ARC, '''        if angle_x_plus < total_angle:
            vectors.append(Vector(x=radius, y=0))
        if angle_y_minus < total_angle:
            vectors.append(Vector(x=0, y=-radius))
        if angle_x_minus < total_angle:
            vectors.append(Vector(x=-radius, y=0))
        if angle_y_plus < total_angle:
            vectors.append(Vector(x=0, y=radius))

        return Box.from_vectors(*(v + self.center for v in vectors))
''', '''        def reach(angle: float, x: float, y: float) -> None:
            if total_angle > angle:
                vectors.append(Vector(x=x, y=y))

        reach(angle_x_plus, radius, 0)
        reach(angle_y_minus, 0, -radius)
        reach(angle_x_minus, -radius, 0)
        reach(angle_y_plus, 0, radius)

        corners = [vector + self.center for vector in vectors]
        return Box.from_vectors(*corners)
'''))
rf("ar-transform-flip", (ARC, '''        return self.__class__(
            start=self.start.transform(transform),
            end=self.end.transform(transform),
            center=self.center.transform(transform),
            clockwise=(
                self.clockwise
                if transform[0][0] * transform[1][1] > 0
                else not self.clockwise
            ),
        )
''', '''        clockwise = self.clockwise
        if transform[0][0] * transform[1][1] <= 0:
            clockwise = not clockwise

        return type(self)(
            start=self.start.transform(transform),
            end=self.end.transform(transform),
            center=self.center.transform(transform),
            clockwise=clockwise,
        )
'''))
rf("st-styles-loop", (STY, '''            return {k.upper(): getattr(cls, k) for k in cls.__annotations__}
''', '''            styles: dict[str, Style] = {}
            for name in cls.__annotations__:
                styles[name.upper()] = getattr(cls, name)
            return styles
'''))
rf("st-preset-helper", (STY, '''Style.presets.COPPER = Style(
    background=Color.from_rgba(0, 0, 0, 255),
    foreground=Color.from_rgba(40, 143, 40, 255),
)
Style.presets.COPPER_ALPHA = Style(
    background=Color.from_rgba(0, 0, 0, 0),
    foreground=Color.from_rgba(40, 143, 40, 255),
)
''', '''_COPPER = Color.from_rgba(40, 143, 40, 255)
_BLACK = Color.from_rgba(0, 0, 0, 255)
Style.presets.COPPER = Style(background=_BLACK, foreground=_COPPER)
Style.presets.COPPER_ALPHA = Style(
    background=Color.from_rgba(0, 0, 0, 0), foreground=_COPPER
)
'''))
