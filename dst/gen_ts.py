"""Seeded generator of TypeScript sources over a small, shared pool of names.

Names are drawn from one small pool on purpose: whatever a translation leaks
into another one (known types, base classes, overloads, ...) then changes the
other one's output or messages.
"""

import re
import unicodedata

NAMES = ['Foo', 'Bar', 'Baz', 'Kind', 'Item', 'Node', 'Range', 'Pos']
SPECIAL = ['Error', 'RegExp', 'Thenable', 'Array', 'Uint32Array', 'ReadonlyArray', 'List', 'Any', 'Union', 'Optional']
FIELDS = ['alpha', 'beta', 'gamma', 'kind', 'from', 'value', 'items', 'data']
FUNCS = ['open', 'close', 'send', 'map']
PRIM = ['string', 'number', 'boolean', 'integer', 'uinteger', 'any', 'null',
        'unknown', 'object', 'decimal']


class G:
    def __init__(self, rng):
        self.r = rng

    def name(self):
        if self.r.random() < .06:       # names the translator knows and replaces
            return self.r.choice(SPECIAL)
        return self.r.choice(NAMES)

    def field(self):
        return self.r.choice(FIELDS)

    def lit(self):
        r = self.r
        return r.choice(['"%s"' % r.choice(['a', 'b', 'x y', 'é', 'ü–']),
                         str(r.randint(0, 30)), "'q'", 'true', '-%d' % r.randint(1, 9)])

    def typ(self, d=0):
        r = self.r
        k = r.random()
        if d >= 3 or k < 0.34:
            return r.choice(PRIM)
        if k < 0.50:
            return self.name()
        if k < 0.58:
            return self.name() + '[]'
        if k < 0.62:
            return r.choice(['string', 'number']) + '[]'
        if k < 0.74:
            return ' | '.join(self.typ(d + 1) for _ in range(r.randint(2, 3)))
        if k < 0.80:
            return ' | '.join(self.lit() for _ in range(r.randint(1, 3)))
        if k < 0.87:
            return self.obj(d + 1)
        if k < 0.90:
            return '[' + ', '.join(self.typ(2) for _ in range(r.randint(1, 3))) + ']'
        if k < 0.93:
            return '{ [key: string]: %s }' % self.typ(2)
        if k < 0.96:
            return 'Array<%s>' % r.choice(PRIM[:4] + NAMES)
        return '(%s: %s) => %s' % (self.field(), self.typ(2), r.choice(PRIM[:4]))

    def obj(self, d=1):
        r = self.r
        return '{ ' + ' '.join('%s%s: %s;' % (f, '?' if r.random() < .4 else '', self.typ(d))
                               for f in r.sample(FIELDS, r.randint(1, 3))) + ' }'

    def comment(self):
        r = self.r
        k = r.random()
        w = r.choice(['alpha', 'beta', 'see {@link Foo}', 'größe – ü', 'TODO'])
        if k < .4:
            return '// %s\n' % w
        return '/**\n * %s\n * %d\n */\n' % (w, r.randint(0, 99))

    def interface(self):
        r = self.r
        n = self.name()
        tp = ''
        if r.random() < .2:
            tp = '<%s>' % r.choice(['T', 'T, S', 'T = any', 'K extends string'])
        ext = ''
        if r.random() < .35:
            ext = ' extends ' + ', '.join(r.sample(NAMES, r.choice([1, 1, 2])))
        lines = []
        for f in r.sample(FIELDS, r.randint(0, 4)):
            t = self.typ()
            if tp and r.random() < .4:
                t = r.choice(['T', 'T[]', 'T | null']) if 'T' in tp else t
            if r.random() < .25:
                lines.append('    ' + self.comment().replace('\n', '\n    ').rstrip(' '))
            lines.append('    %s%s%s: %s;\n' % (
                r.choice(['', '', '', 'readonly ']), f, r.choice(['', '', '?']), t))
        k = r.random()
        if k < .18:
            f = r.choice(FUNCS)
            for _ in range(r.choice([1, 2, 2])):
                lines.append('    %s(%s: %s, %s: %s): %s;\n' % (
                    f, self.field(), r.choice(PRIM[:3] + NAMES), self.field() + '2',
                    r.choice(PRIM[:3]), r.choice(PRIM[:4])))
        elif k < .22:
            lines.append('    constructor(%s: %s);\n' % (self.field(), r.choice(PRIM[:3])))
        return 'export interface %s%s%s {\n%s}\n' % (n, tp, ext, ''.join(lines))

    def alias(self):
        r = self.r
        tp = '<T>' if r.random() < .12 else ''
        return 'export type %s%s = %s;\n' % (self.name(), tp, self.typ())

    def enum(self):
        r = self.r
        k = r.random()
        items = []
        for i, x in enumerate(r.sample(['One', 'Two', 'Three', 'None_'], r.randint(1, 3))):
            if k < .45:
                items.append('    %s = %d' % (x, i + r.randint(0, 3)))
            elif k < .9:
                items.append("    %s = '%s'" % (x, x.lower()))
            else:
                items.append('    ' + x)
        return 'export enum %s {\n%s\n}\n' % (self.name(), ',\n'.join(items))

    def namespace(self):
        r = self.r
        n = self.name()
        k = r.random()
        body = []
        if k < .6:
            for i, x in enumerate(r.sample(['Err', 'Warn', 'Info', 'Hint'], r.randint(1, 3))):
                if r.random() < .25:
                    body.append('    ' + self.comment().replace('\n', '\n    ').rstrip(' '))
                body.append('    export const %s: %s = %s;\n' % (
                    x, r.choice(['number', 'string', "'x'", str(i)]),
                    r.choice([str(i), "'%s'" % x.lower()])))
        else:
            body.append('    ' + self.interface().replace('\n', '\n    ').rstrip(' '))
            if r.random() < .5:
                body.append('    ' + self.alias().lstrip())
            if r.random() < .5:
                f = r.choice(FUNCS)
                for _ in range(r.choice([1, 2])):
                    body.append('    export function %s(%s: %s): %s;\n' % (
                        f, self.field(), r.choice(PRIM[:3] + NAMES), r.choice(PRIM[:3])))
        s = 'export namespace %s {\n%s}\n' % (n, ''.join(body))
        if r.random() < .4:  # type alias with the same name
            a = 'export type %s = %s;\n' % (n, r.choice(['1 | 2 | 3', "'a' | 'b'", 'number', 'string']))
            s = r.choice([a + s, s + a])
        return s

    def function(self):
        r = self.r
        f = r.choice(FUNCS)
        return ''.join('export function %s(%s: %s, %s?: %s): %s;\n' % (
            f, self.field(), r.choice(PRIM[:3] + NAMES), self.field() + '2', r.choice(PRIM[:3]),
            r.choice(PRIM[:4] + NAMES)) for _ in range(r.choice([1, 2, 2, 3])))

    def const(self):
        r = self.r
        return 'export const %s: %s = %s;\n' % (self.field().upper() + '_', r.choice(['number', 'string', 'string[]']),
                                               r.choice(['1', "'x'", "['a', 'b']"]))

    def decl(self):
        r = self.r
        f = r.choice([x for x in FIELDS if x != 'from'])
        return 'export let %s: %s;\n' % (f, self.typ(1))

    def warner(self):
        """constructs that yield warnings"""
        r = self.r
        n = self.name()
        return r.choice([
            lambda: 'export type %s = Foo & Bar;\n' % n,
            lambda: "export type %s = Foo['kind'];\n" % n,
            lambda: 'export type %s = { [key in keyof Foo]: %s };\n' % (n, r.choice(PRIM[:4])),
            lambda: 'export type %s = string;\nexport type %s = number;\n' % (n, n),
            lambda: 'interface %s {\n    a: number;\n}\ninterface %s {\n    b: string;\n}\n' % (n, n),
        ])()

    def error(self):
        """malformed constructs"""
        r = self.r
        return r.choice(['export interface {\n a: string;\n}\n', 'export interface Foo {\n  a: ;\n}\n',
                         'export enum Kind { 1a }\n', 'export type Foo = ;\n', '@@@ what\n',
                         'export interface Bar {\n  alpha: string\n', 'export const : number = 1;\n'])

    def block(self):
        return self.r.choices(
            [self.interface, self.alias, self.enum, self.namespace, self.function, self.const,
             self.decl, self.comment, self.warner, lambda: self.r.choice(SNIPPETS)],
            [34, 14, 10, 14, 7, 4, 4, 4, 5, 6])[0]()


SNIPPETS = [
    "import { Foo, Bar } from 'vscode-types';\n",
    "declare module 'vscode' {\n    export interface Foo {\n        alpha: number;\n    }\n}\n",
    'interface Message {\n    jsonrpc: string;\n}\n',
    'export interface Foo {\n    value: { kind: string; data: { items: number[]; }; } | null;\n}\n',
    'export interface Bar<T> {\n    value: T;\n    items?: T[];\n}\n',
    'export type Pos = { alpha: uinteger; beta?: { gamma: string; } } | string;\n',
    'interface InitializeResult {\n    capabilities: string;\n    serverInfo?: {\n        name: string;\n        version?: string;\n    };\n}\n',
    'export type Kind = "a" | "b" | 7 | string;\n',
    'export interface Node {\n    changes?: { [uri: string]: Item[]; };\n    documentChanges?: (\n        Foo[] |\n        (Foo | Bar | Baz)[]\n    );\n}\n',
    'export class Item extends Foo {\n    constructor(alpha: string, beta?: number);\n    static create(alpha: string): Item;\n}\n',
    'export namespace Range {\n    export function create(start: Pos, end: Pos): Range;\n    export function create(one: number, two: number): Range;\n}\n',
    'export interface Item {\n    [key: string]: any;\n}\n',
]


# documents that show about everything a translation may carry over from another one
PROBES = [
    """export const VERSION: string = '1';
export const COUNT: number = 1;
export interface Foo extends Bar, Unknown { alpha: { beta?: string | { gamma: number }; } | string; kind: 'a' | 'b'; }
export interface Bar<T> { value: T; items?: T[]; }
export interface Baz { open(a: string, b?: number): Foo; open(a: Baz, b: number): void; data?: Kind; pos: { x: 1 }; }
export namespace Kind { export const One: number = 1; export const Two: number = 2; }
export type Item = Foo | Later | { alpha: string } | { beta: Item[] };
export function send(a: Foo, b?: string): void;
export function send(a: string, b: number): Bar;
export type Last = Error | RegExp[] | Thenable<string> | Uint32Array | ReadonlyArray<Error>;
export let value: { alpha: string } | { beta: number };
""",
    """/* alpha
 * beta */
export type Kind = 1 | 2;
export namespace Kind { export const One: Kind = 1; export const Two: Kind = 2; }
export enum Item { One = 1, Two = 2 }
export enum Node { One = 'a', Two = 'b' }
export interface Pos { from: uinteger; readonly to?: Range | null; (a: string): void; }
export interface Range extends Pos { items: Array<Foo>; map(a: { x: number } | string): { y: string } | Foo; }
export namespace Foo { export function create(a: Pos, b: Pos): Foo; export function create(a: number): Foo; export type T = string; }
export class Bar extends Foo { constructor(alpha: string); }
export const LIST: string[] = ['a', 'b'];
export type Baz<T> = { data: T } | T[];
""",
    """export interface Item extends Foo { alpha: string; }
export interface Node extends Kind { alpha?: string; }
export type Foo = string;
export type Foo = number;
export interface Bar { a: Baz; b: Range; c: Pos; d: { e: { f: Kind } } }
export const X: Foo = 1;
""",
]


# every option of the translator changes the output for these
RICH = ["""export interface Foo<T> {
    alpha?: string | number;
    kind: 'a' | 'b';
    value: { beta: number; } | { gamma: string; };
    data: T[];
}
/*
 * delta
 */
export enum Kind { One = 1, Two = 2 }
export type Item = Foo | string;
export interface Bar { items: [number, string]; pos?: Kind; }
export type Pos<T> = { from: T; } | T[];
""","""export enum Item { One = 'a', Two = 'b' }
/*
 * alpha
 */
export namespace Kind { export const One: 1 = 1; export const Two: 2 = 2; }
export type Kind = 1 | 2;
export interface Node<T> { alpha?: 'x' | 'y'; beta: { gamma?: number; } | null; items: T | string; value: [string, number]; }
/*
 * omega
 */
export function send(a: Foo, b?: string): void;
"""]


def big(rng, text):
    """the text among many or long other things: larger than any block or buffer"""
    n = rng.choice([3000, 5000, 9000, 20000, 40000, 70000, 140000])
    k = rng.randrange(5)
    if k == 0:
        pad = '/* ' + 'filler – ' * (n // 11) + '*/\n'
    elif k == 1:
        pad = ''.join('// filler line %d\n' % i for i in range(n // 20))
    elif k == 2:
        pad = "export enum Long { One = '%s', Two = 'b' }\n" % ('ab ' * (n // 3))
    elif k == 3:
        pad = ''.join('export const C%d: number = %d;\n' % (i, i) for i in range(min(n, 20000) // 35))
    else:           # long messages
        pad = 'export type %s = string;\n' % ('L' * n) * 2
    return rng.choice([pad + text, text + '\n' + pad, pad + text + '\n// end'])


def source(rng, size=None, kinds='clean'):
    """kinds: 'clean' may contain warnings by chance; 'error' has a syntax error"""
    g = G(rng)
    if size is None and rng.random() < .08:       # a single line, possibly without line break
        t = rng.choice([g.alias, g.const, g.decl, g.warner,
                        lambda: 'interface %s { %s: %s; }' % (g.name(), g.field(), rng.choice(PRIM))])()
        t = ' '.join(t.split('\n')).rstrip() + rng.choice(['', '', '\n'])
        if kinds == 'error':
            t = rng.choice(['export type = string;', 'interface { a: string; }', ';;', 'Foo', '', 'a.ts'])
        return t
    n = size or rng.choice([1, 2, 3, 4, 6])
    blocks = [g.block() for _ in range(n)]
    if kinds == 'warn' or (kinds == 'any' and rng.random() < .25):
        n = rng.choice([12, 25, 60, 120]) if rng.random() < .06 else 1      # now and then a lot of messages
        for _ in range(n):
            blocks.insert(rng.randrange(len(blocks) + 1), g.warner())
    if kinds == 'error' or (kinds == 'any' and rng.random() < .15):
        blocks.insert(rng.randrange(len(blocks) + 1), g.error())
    if rng.random() < .05:
        blocks.insert(rng.randrange(len(blocks) + 1), rng.choice(ODD))
    sep = rng.choice(['\n', '\n', '\n\n'])
    text = sep.join(blocks)
    return odd_text(rng, text) if rng.random() < .06 else text


# what reads like the frame of the generated code, or like messages or file names
ODD = [
    "export enum Kind { One = 'source_hash__ = 0', Two = ' source_hash__ =' }\n",
    "export const MARK: string = 'source_hash__ = \"0123456789abcdef0123456789abcdef\"';\n",
    "export enum Item { One = '##### BEGIN OF ts2python generated code', Two = '##### END OF ts2python generated code' }\n",
    '/*\n * source_hash__ = "0123456789abcdef"\n *\n * ##### END OF ts2python generated code\n */\n',
    "export interface source_hash__ { alpha: string; }\n",
    "export enum Node { One = 'a.ts', Two = '_ERRORS.txt: 1:1: Error (1000): x' }\n",
    "export enum Pos { One = '%s {0} \\\\n', Two = '$1 \\\\1' }\n",
    "export type Range = 'a\U0001f600b' | 'x\u00a0y' | '\u2028';\n",
]


def odd_text(rng, text):
    """line ends, marks and blanks as other editors and systems write them"""
    k = rng.randrange(7)
    if k == 0:
        return text.replace('\n', '\r\n')
    if k == 1:
        return '\ufeff' + text
    if k == 2:
        return '\ufeff' + text.replace('\n', '\r\n')
    if k == 3:
        i = text.find('\n') + 1
        return text[:i] + '// a%sb\n' % rng.choice(['\u2028', '\x85', '\x0c', '\x0b', '\x1c', '\u00a0']) + text[i:]
    if k == 4:
        return text.replace('    ', '\t')
    if k == 5:
        return text.replace('\n', '\r', 1)
    return text.rstrip('\n') + rng.choice(['', '\x1a', '\n\n\n\n', '  \t '])


def mutate(rng, src):
    """a small edit, such as a user makes between two runs"""
    g = G(rng)
    k = rng.randrange(17)
    if len(src) > 3000 and k > 1 and rng.random() < .6:
        k = 12
    lines = src.split('\n')
    i = rng.randrange(len(lines))
    if k == 0:
        return src + rng.choice(['\n', ' ', '\n\n', '// end', '\n/* é */\n'])
    if k == 1:
        return src + '\n' + g.block()
    if k == 2:
        return g.block() + '\n' + src
    if k == 3:
        return src.replace('string', 'number', 1) if 'string' in src else src + g.alias()
    if k == 4:
        a, b = rng.sample(NAMES, 2)
        return src.replace(a, b, rng.choice([1, -1]))
    if k == 5 and len(lines) > 2:
        del lines[i]
        return '\n'.join(lines)
    if k == 6:
        lines.insert(i, g.comment().rstrip('\n'))
        return '\n'.join(lines)
    if k == 7:
        return src.replace('    ', rng.choice(['  ', '\t']))
    if k == 8:
        return src.replace('?:', ':', 1) if '?:' in src else src.replace(': ', '?: ', 1)
    if k == 9:
        # change a single character inside a name, a literal or a comment
        idx = [j for j, c in enumerate(src) if c.isalnum()]
        if idx:
            j = rng.choice(idx)
            c = src[j]
            n = rng.choice('123') if c.isdigit() else (c.swapcase() if rng.random() < .5 else rng.choice('abcxyz'))
            return src[:j] + n + src[j + 1:]
    if k == 10:
        return src.replace("'", '"') if "'" in src else src.replace('"', "'")
    if k == 11 and len(lines) > 2:
        j = rng.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
        return '\n'.join(lines)
    if k == 12:         # far back
        j = max(0, len(src) - rng.choice([30, 60, 120, 400]))
        idx = [i for i in range(j, len(src)) if src[i].isalnum()]
        if idx:
            j = rng.choice(idx)
            return src[:j] + (rng.choice('123') if src[j].isdigit() else rng.choice('abcxyz')) + src[j + 1:]
    if k == 13:         # in nothing but white space, or next to it
        t = whitespace(rng, src)
        if t != src:
            return t
    if k == 14 and len(lines) > 1:
        return src + rng.choice(['\n', '']) + '\n'.join(rng.sample(lines, 1))
    if k == 16:         # a single odd character
        return odd_edit(rng, src)
    if k == 15:         # something is moved or cut from the end
        return src[:-rng.choice([1, 2, 8, 30])] or src
    return src + g.interface()


def whitespace(rng, src):
    """an edit of white space that matters: inside of a literal, at the end of a line comment"""
    out = []
    for m in re.finditer(r'//[^\n]*\n', src):
        out.append(src[:m.end() - 1] + ' ' + src[m.end():])
        mid = src.find(' ', m.start() + 3, m.end())
        if mid > 0:
            out.append(src[:mid] + '\n' + src[mid + 1:])
    for m in re.finditer(r'([\'"])(\w+) (\w+)\1', src):
        out.append(src[:m.end(2)] + rng.choice(['  ', '']) + src[m.start(3):])
    for m in re.finditer(r'/\*(?:[^*]|\*(?!/))*\*/', src):
        if '\n' in m.group():
            out.append(src[:m.start()] + m.group().replace('\n', ' ') + src[m.end():])
        else:
            out.append(src[:m.end() - 2] + '\n' + src[m.end() - 2:])
    for m in re.finditer(r';\n( *)(\w+\??:)', src):
        out.append(src[:m.start() + 1] + ' // ' + src[m.start(2):])
    return rng.choice(out) if out else src


BLANKS = ['\n', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', '\u2028', '\u3000', '\ufeff', '\t']
ODD_BLANKS = '\r\x0b\x0c\x1c\x85\xa0\u2028\u3000\ufeff'


def odd_edit(rng, src):
    """an edit of a single character that some ways to read, compare or hash a text do not see"""
    idx = [i for i, c in enumerate(src) if c in ODD_BLANKS]
    if idx and rng.random() < .6:       # one for another
        i = rng.choice(idx)
        return src[:i] + rng.choice(['\n', '\n', ''] + [b for b in BLANKS if b != src[i]]) + src[i + 1:]
    out = [src + rng.choice(BLANKS)]
    out.append(src[1:] if src.startswith('\ufeff') else '\ufeff' + src)
    idx = [i for i, c in enumerate(src) if ord(c) > 127]
    for i in rng.sample(idx, min(3, len(idx))):
        c = src[i]
        new = BLANKS if c.isspace() else [c.swapcase(), 'à', 'ß', '\u212b', unicodedata.normalize('NFD', c), chr(ord(c) ^ 1)]
        out += [src[:i] + rng.choice([n for n in new if n != c]) + src[i + 1:]] * 2
    idx = [m.end() for m in re.finditer(r'// \w+|/\*\* *|[;,]', src)]
    for i in rng.sample(idx, min(2, len(idx))):
        out.append(src[:i] + rng.choice(BLANKS) + src[i:])
    return rng.choice(out)


OPTION_VALUES = {
    'ts2python.BaseClassName': ['TypedDict', 'BaseModel', 'pydantic.BaseModel', 'GenericTypedDict'],
    'ts2python.RenderAnonymous': ['local', 'toplevel', 'functional', 'type'],
    'ts2python.ClassDecorator': ['', '@dataclass', 'final', '@attrs.define '],
    'ts2python.UseEnum': [True, False],
    'ts2python.UseTypeUnion': [False, True],
    'ts2python.UseTypeParameters': [False, True],
    'ts2python.UseLiteralType': [False, True],
    'ts2python.UseVariadicGenerics': [False, True],
    'ts2python.UseNotRequired': [False, True],
    'ts2python.KeepMultilineComments': [False, True],
}


def options(rng, n=None):
    """A (sparse) set of options that differ from the defaults."""
    n = rng.choice([0, 0, 1, 1, 2, 3]) if n is None else n
    out = {}
    for k in rng.sample(sorted(OPTION_VALUES), n):
        out[k] = rng.choice(OPTION_VALUES[k][1:])
    return out
