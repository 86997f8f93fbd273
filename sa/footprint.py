"""Field-based read/write footprints of functions (flow-insensitive, transitive).

A footprint is a set of field names: attributes of objects, 'xml' for the tree structure of
lxml elements, 'fs' for the file system.  Used to decide whether two operations may interfere,
i.e. whether their order is observable.
"""
import ast

XML_WRITE = {'append', 'insert', 'remove', 'addnext', 'addprevious', 'replace', 'extend', 'clear'}
XML_READ = {
    'xpath', 'find', 'findall', 'iter', 'iterchildren', 'getchildren', 'getparent', 'getnext',
    'getprevious', 'itersiblings', 'iterancestors', 'getroot', 'index', 'findtext', 'iterfind',
}
CONTAINER_WRITE = {
    'append', 'extend', 'insert', 'add', 'update', 'clear', 'pop', 'popitem', 'remove', 'discard',
    'sort', 'reverse', 'setdefault', 'write', 'writelines', 'writerow', 'set', 'feed', 'put',
    'reset', 'enter_context', 'callback', 'close',
}
LOG = {'debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'}

EXT_READ = {
    'copy.deepcopy': {'xml', 'text', 'tail', 'attrib'},
    'copy.copy': {'attrib'},
}
CONTAINERS = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
TEXT_FNS = ('get_text_content', 'get_text_content_list', 'tostring', 'itertext')


def ext_footprint(q, attr_args):
    """footprint of an external function; attr_args: attribute names passed to it"""
    name = q.split('.')[-1]
    if q in EXT_READ:
        return set(EXT_READ[q]), set()
    if name in TEXT_FNS:
        return {'xml', 'text', 'tail', 'attrib'}, set()
    if name in ('set_or_remove_attrib',):
        return set(), {'attrib'}
    if name in ('save_file_content', 'makedirs', 'mkdirs_if_not_exists', 'copyfileobj', 'copy_file',
                'create'):
        return set(), {'fs'}
    if name in ('open', 'exists', 'map_file_list_to_file_exists', 'load_xml', 'parse',
                'find_matching_filenames_with_limit', 'load_file_list', 'read_all_from_path'):
        return {'fs'}, set()
    return set(), set()


def base_attr(node):
    """innermost attribute name of x.attr / x.attr[...] / x.attr.y(...)[..] receivers"""
    while isinstance(node, (ast.Subscript, ast.Starred)):
        node = node.value
    if isinstance(node, ast.Attribute):
        return node.attr
    return None


class Footprints:
    def __init__(self, program):
        self.p = program
        self.reads, self.writes, calls = {}, {}, {}
        self.by_name = {}
        for q, f in program.funcs.items():
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(q)
        for q, f in program.funcs.items():
            r, w, c = self.direct(f)
            self.reads[q], self.writes[q], calls[q] = r, w, c
        changed = True
        while changed:
            changed = False
            for q, cs in calls.items():
                for c in cs:
                    if c in self.reads:
                        for mine, other in ((self.reads, self.reads), (self.writes, self.writes)):
                            if not other[c] <= mine[q]:
                                mine[q] |= other[c]
                                changed = True

    def direct(self, f):
        r, w, calls = set(), set(), set()
        local = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, (
                    ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp,
                    ast.Call)):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        local.add(t.id)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                local.add(n.target.id)
        mine, theirs = set(), {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                made = isinstance(n.value, CONTAINERS) or isinstance(n.value, ast.Call) \
                    and isinstance(n.value.func, ast.Name) and n.value.func.id in (
                        'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'deque')
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            bare = isinstance(n, ast.AnnAssign) and n.value is None
                            if not bare:
                                (mine if made and x is t else theirs).add(x.id)
            elif isinstance(n, (ast.For, ast.comprehension, ast.withitem, ast.NamedExpr)):
                t = n.optional_vars if isinstance(n, ast.withitem) else n.target
                theirs.update(x.id for x in ast.walk(t) if isinstance(x, ast.Name)) if t else None
        self.containers = mine - theirs
        init_self = f.node.args.args[0].arg if f.name == '__init__' and f.node.args.args else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.ctx, ast.Load):
                    r.add(n.attr)
                elif not (isinstance(n.value, ast.Name) and n.value.id == init_self):
                    w.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                a = base_attr(n.value)
                if a:
                    w.add(a)
            elif isinstance(n, ast.Call):
                self.call(f, n, r, w, calls, local)
        return r, w, calls

    def call(self, f, n, r, w, calls, local):
        d = f.module.dotted(n.func)
        c = self.p.canonical(d) if d else None
        if c in self.p.funcs:
            calls.add(c)
            return
        if c in self.p.classes:
            m = self.p.find_method(c, '__init__')
            if m is not None:
                calls.add(m.qualname)
            return
        if isinstance(n.func, ast.Attribute):
            m = n.func.attr
            if m in LOG:
                return
            a = base_attr(n.func.value)
            if isinstance(n.func.value, ast.Name) and n.func.value.id in self.containers:
                return
            resolved = None
            if isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls') and f.cls:
                resolved = self.p.find_method(f.cls.qualname, m)
                if resolved is not None:
                    calls.add(resolved.qualname)
                    for s in self.p.subclasses(f.cls.qualname):
                        if m in s.methods:
                            calls.add(s.methods[m].qualname)
                    return
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) \
                    and n.func.value.func.id == 'super' and f.cls:
                resolved = self.p.find_method(f.cls.qualname, m, after=f.cls.qualname)
                if resolved is not None:
                    calls.add(resolved.qualname)
                return
            if m in self.by_name:
                calls.update(self.by_name[m])
            if m in XML_READ:
                r.add('xml')
            if m == 'itertext':
                r.update(('xml', 'text', 'tail'))
            if m in CONTAINER_WRITE or m in XML_WRITE:
                if a:
                    w.add(a)
                elif not (isinstance(n.func.value, ast.Name) and n.func.value.id in local):
                    if m in XML_WRITE:
                        w.add('xml')
                    if m == 'clear':
                        w.update(('text', 'tail', 'attrib'))
                    if m == 'set':
                        w.add('attrib')
        if c:
            er, ew = ext_footprint(c, ())
            r |= er
            w |= ew

    # ---------------------------------------------------------------- queries
    def of_func(self, q):
        return self.reads.get(q, frozenset()), self.writes.get(q, frozenset())

    def of_method(self, name, recv_attr, local):
        r, w = set(), set()
        for q in self.by_name.get(name, ()):
            r |= self.reads[q]
            w |= self.writes[q]
        if name in XML_READ:
            r.add('xml')
        if name == 'itertext':
            r.update(('xml', 'text', 'tail'))
        if name in CONTAINER_WRITE or name in XML_WRITE:
            if recv_attr:
                w.add(recv_attr)
            elif not local:
                if name in XML_WRITE:
                    w.add('xml')
                if name == 'clear':
                    w.update(('text', 'tail', 'attrib'))
                if name == 'set':
                    w.add('attrib')
        if recv_attr:
            r.add(recv_attr)
        return r, w

    def of_ext(self, q):
        return ext_footprint(q, ())
