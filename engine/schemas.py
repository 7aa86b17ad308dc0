"""The schema family of the generator properties (C22..C24)."""
SCALARS = ['int32', 'sint32', 'uint32', 'int64', 'sint64', 'uint64', 'sfixed32', 'sfixed64', 'fixed32', 'fixed64',
           'float', 'double', 'bool', 'string', 'bytes']
KEYS = ['int32', 'sint32', 'uint32', 'int64', 'sint64', 'uint64', 'sfixed32', 'sfixed64', 'fixed32', 'fixed64', 'bool', 'string']
PKG = 'fam'


class Enum:
    def __init__(self, name, vals):
        self.name, self.vals = name, vals


class Field:
    """card: one, list, map; type: a scalar name, Enum or Msg"""
    def __init__(self, name, type, card='one', key=None, opt=False, oneof=None):
        self.name, self.type, self.card, self.key, self.opt, self.oneof = name, type, card, key, opt, oneof

    @property
    def cat(self):
        return 'enum' if isinstance(self.type, Enum) else 'msg' if isinstance(self.type, Msg) else self.type


class Msg:
    def __init__(self, name, *fields, nested=(), enums=(), **o):
        self.name, self.fields, self.nested, self.enums, self.o = name, list(fields), nested, enums, o


def camel(s):
    """the camel case the generators document"""
    out, i = '', 0
    if s[:1] == '_':
        out, i = 'X', 1
    while i < len(s):
        c = s[i]
        i += 1
        if c == '.' or (c == '_' and s[i:i + 1].islower()):
            continue
        out += c.upper()
        if not c.isdigit():
            while s[i:i + 1].islower():
                out += s[i]
                i += 1
    return out


def family():
    color = Enum('Color', ['RED', 'GREEN', 'BLUE'])
    E, L = [color], []
    kinds = [(s, s) for s in SCALARS] + [('enum', color)]
    for n, t in kinds:
        L.append(Msg('S_' + n, Field('f', t)))
        L.append(Msg('L_' + n, Field('f', t, 'list')))
        L.append(Msg('V_' + n, Field('f', t, 'map', 'bool')))
    for k in KEYS:
        L.append(Msg('K_' + k, Field('f', 'bool', 'map', k)))
    inner = Msg('Inner', Field('a', 'uint32'), Field('b', 'string'))
    pair = Msg('Pair', Field('x', 'bool'), Field('y', 'bytes'))
    L += [inner, pair]
    L.append(Msg('N_one', Field('m', inner)))
    L.append(Msg('N_two', Field('m', inner), Field('p', pair)))
    L.append(Msg('N_three', Field('x', 'bool'), Field('m', inner), Field('p', pair)))
    node = Msg('Node', Field('v', 'bool'))
    node.fields.append(Field('next', node))
    L.append(node)
    L.append(Msg('N_list', Field('m', pair, 'list'), Field('x', 'bool')))
    L.append(Msg('N_map', Field('m', pair, 'map', 'bool'), Field('x', 'bool')))
    # scalars come first, then lists, then messages and maps, each in field order
    L.append(Msg('Order', Field('m', inner), Field('x', 'bool'), Field('ls', 'bool', 'list'), Field('mp', 'bool', 'map', 'bool'), Field('s', 'string'),
                 Field('n', pair), Field('l2', 'string', 'list'), Field('d', 'double'), Field('y', 'bool'), full=True, notail=True))
    # kinds that are encoded alike but taken apart by the templates, in every order
    L.append(Msg('Mixed', Field('e', color), Field('b', 'bool'), Field('by', 'bytes'), Field('e2', color), Field('s', 'string'), Field('i', 'sint64')))
    L.append(Msg('Lists', Field('m', pair, 'list'), Field('b', 'bool', 'list'), Field('e', color, 'list'), Field('by', 'bytes', 'list'), full=True))
    L.append(Msg('Maps', Field('e', color, 'map', 'bool'), Field('m', inner), Field('b', 'bool', 'map', 'bool'), full=True))
    L.append(Msg('Floats', Field('a', 'float'), Field('b', 'float'), Field('c', 'double'), Field('d', 'bool'), Field('e', 'bool')))
    deep = Enum('Deep', ['UP', 'DOWN'])
    inn = Msg('In', Field('v', 'bool'), Field('d', deep), enums=[deep])
    lvl = Enum('Level', ['LOW', 'HIGH'])
    L.append(Msg('Nest', Field('i', inn), Field('e', lvl), Field('es', lvl, 'list'), Field('me', lvl, 'map', 'bool'), nested=[inn], enums=[lvl]))
    L.append(Msg('Names', Field('my_field', 'bool'), Field('_lead', 'bool'), Field('a_1', 'bool'), Field('camelCase', 'bool'), Field('x_y_z', 'string')))
    L.append(Msg('Opt', Field('a', 'bool', opt=True), Field('b', 'string', opt=True)))
    L.append(Msg('Choice', Field('a', 'bool', oneof='o'), Field('b', 'string', oneof='o')))
    empty = Msg('Empty')
    L += [empty, Msg('HasEmpty', Field('x', 'bool'), Field('e', empty), notail=True), Msg('EmptyNil', Field('x', 'bool'), Field('e', empty), Field('p', pair), known=True)]
    return E, L


def typename(t, paths):
    return '.' + PKG + '.' + paths[id(t)]


def descriptor(enums, msgs):
    """the FileDescriptorProto, as protojson"""
    paths = {}

    def walk(m, pre):
        paths[id(m)] = pre + m.name
        for n in m.nested:
            walk(n, pre + m.name + '.')
        for e in m.enums:
            paths[id(e)] = pre + m.name + '.' + e.name
    for e in enums:
        paths[id(e)] = e.name
    for m in msgs:
        walk(m, '')

    def enum(e):
        return {'name': e.name, 'value': [{'name': (e.name + '_' + v).upper(), 'number': i} for i, v in enumerate(e.vals)]}

    def ftype(d, t):
        if isinstance(t, Enum):
            d.update(type='TYPE_ENUM', typeName=typename(t, paths))
        elif isinstance(t, Msg):
            d.update(type='TYPE_MESSAGE', typeName=typename(t, paths))
        else:
            d['type'] = 'TYPE_' + t.upper()
        return d

    def entry(f):
        s = ''.join(p[:1].upper() + p[1:] for p in f.name.split('_'))
        return s + 'Entry'

    def msg(m):
        d = {'name': m.name, 'field': [], 'nestedType': [msg(n) for n in m.nested], 'enumType': [enum(e) for e in m.enums], 'oneofDecl': []}
        oneofs = []
        for f in m.fields:
            if f.oneof and f.oneof not in oneofs:
                oneofs.append(f.oneof)
        d['oneofDecl'] = [{'name': o} for o in oneofs]
        for i, f in enumerate(m.fields):
            x = {'name': f.name, 'number': i + 1, 'label': 'LABEL_OPTIONAL' if f.card == 'one' else 'LABEL_REPEATED'}
            if f.card == 'map':
                en = entry(f)
                x.update(type='TYPE_MESSAGE', typeName=f'.{PKG}.{paths[id(m)]}.{en}')
                d['nestedType'].append({'name': en, 'options': {'mapEntry': True}, 'field': [
                    ftype({'name': 'key', 'number': 1, 'label': 'LABEL_OPTIONAL'}, f.key),
                    ftype({'name': 'value', 'number': 2, 'label': 'LABEL_OPTIONAL'}, f.type)]})
            else:
                ftype(x, f.type)
            if f.oneof:
                x['oneofIndex'] = oneofs.index(f.oneof)
            if f.opt:
                x['proto3Optional'] = True
                x['oneofIndex'] = len(d['oneofDecl'])
                d['oneofDecl'].append({'name': '_' + f.name})
            d['field'].append(x)
        return d
    return {'name': 'fam.proto', 'package': PKG, 'syntax': 'proto3', 'options': {'goPackage': 'verif/harness/fam'},
            'enumType': [enum(e) for e in enums], 'messageType': [msg(m) for m in msgs]}, paths
