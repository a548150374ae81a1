"""Options and packages: what a command line asks for is what is done, and what the usage text lists is read."""
import os
import re

import core
import fe
import lint
from rules import All, Any, Case, Each, Ends, Fn, Part, Stops

A = 'lib/arg-parse.c'
L = 'lib/load.c'


def same(x, y='argv'):
    return Any(*['!%s(%s)' % (f, a) for f in ('strcmp',) for a in ('%s, %s' % (x, y), '%s, %s' % (y, x))])


def other(x, y='argv'):
    return Any('strcmp(%s, %s)' % (x, y), 'strcmp(%s, %s)' % (y, x))


def took(n):
    return All('argc := argc-%d' % n, 'argv := argv[%d]' % n, 'no error := ~', 'return 1')


def failed():
    return All('error := 1', 'emit stderr "~"', 'return 1')


FEW, MORE = Any('argc < 2', 'argc == 1'), Any('argc >= 2', 'argc != 1')
UNTOUCHED = All('no argc := ~', 'no argv := ~', 'no error := ~', 'return 0')


def named(f, *names):
    return Any(*['%s("%s", ~, argc, argv, error)' % (f, n) for n in names])


def copied(x, n):
    return Any(*['call %s(~, %s, %s)' % (f, x, n) for f in ('strncpy', 'memcpy', 'memmove')] + ['call strndup(%s, %s)' % (x, n)])


def options():
    S = 'FbleParseStringArg'
    none = All(*['!%s("%s", ~, argc, argv, error)' % (S, n) for n in ('--package', '-p', '--module', '-m')])
    found = 'FbleFindPackage(out:%s(~' % S
    parsed = 'FbleParseModulePath(out:%s(~' % S
    dirs = 'no call FbleAppend~'
    return [
        Fn(A, 'FbleParseBoolArg', ['name', 'dest', 'argc', 'argv', 'error'], [
            Case('a flag', [], Any(All(same('name'), 'dest := 1', took(1)), All(other('name'), 'no dest := ~', UNTOUCHED)))], ways='all'),
        Fn(A, 'FbleParseStringArg', ['name', 'dest', 'argc', 'argv', 'error'], [
            Case('a value', [], Any(
                All(same('name'), FEW, failed(), 'no dest := ~'),
                All(same('name'), MORE, 'dest', failed(), 'no dest := ~'),
                All(same('name'), MORE, '!dest', 'dest := argv[1]', took(2)),
                All(other('name'), 'no dest := ~', UNTOUCHED)))], ways='all'),
        Fn(A, 'FbleParseModuleArg', ['dest', 'argc', 'argv', 'error'], [
            Case('its options', [], Any(
                All(same('"-I"'), FEW, failed(), dirs),
                All(same('"-I"'), MORE, 'call FbleAppendToSearchPath(dest.search_path, argv[1])', took(2)),
                All(other('"-I"'), Any(All('argv == 45', 'argv[1] == 73'), '!strncmp(~"-I"~'), 'call FbleAppendToSearchPath(dest.search_path, argv[2])', took(1)),
                All(named(S, '--package', '-p'), Any('error', 'error == 1'), dirs, 'return 1'),
                All(named(S, '--package', '-p'), '!error', found, 'call FbleAppendStringToSearchPath(dest.search_path, %s' % found, 'no error := 1', 'return 1'),
                All(named(S, '--package', '-p'), '!error', '!' + found, failed(), dirs),
                All(named(S, '--module', '-m'), 'error', 'no dest.module_path := ~', dirs, 'return 1'),
                All(named(S, '--module', '-m'), '!error', 'dest.module_path', failed(), 'no dest.module_path := ~', dirs),
                All(named(S, '--module', '-m'), '!error', '!dest.module_path', 'dest.module_path := ' + parsed, Any(All(parsed, 'no error := 1'), All('!' + parsed, 'error := 1'), 'error := bool[nz[%s~],False]' % parsed), dirs, 'return 1'),
                All(none, dirs, UNTOUCHED)))], ways='all', only=[S, 'FbleParseModulePath']),
        Fn(A, 'FbleParseInvalidArg', ['argc', 'argv', 'error'], [Case('an error', [], failed())], ways='all'),
        Fn(L, 'FbleAppendToSearchPath', ['path', 'root_dir'], [Case('at the end', [], 'path.xs[path.size] := FbleNewString(root_dir)', 'path.size := path.size+1')], ways='all'),
        Fn(L, 'FbleAppendStringToSearchPath', ['path', 'root_dir'], [Case('at the end', [], 'path.xs[path.size] := root_dir', 'path.size := path.size+1')], ways='all'),
        Fn(L, 'FindPackageAt', ['package', 'package_dir'], [
            Case('a directory', [], Any(All('call strcpy(~, package_dir)', 'call strcat(~, "/")', 'call strcat(~, package)'), 'call sprintf(~"%s/%s", package_dir, package)', 'call snprintf(~"%s/%s", package_dir, package)'), Any(All('!access(~, 0)', 'return FbleNewString(~'), All('access(~, 0)', 'return 0')))], ways='all'),
        Fn(L, 'FbleFindPackage', ['package'], [
            Case('each directory in order, the default last', [], Any(
                All('!getenv("FBLE_PACKAGE_PATH")', 'return FindPackageAt(package, "~'),
                All('getenv("FBLE_PACKAGE_PATH")', 'init($s) = getenv("FBLE_PACKAGE_PATH")',
                    Part('~', 'call FindPackageAt(package, &~', '!FindPackageAt(package, &~',
                         Any(All('strchr($s, 58)', copied('$s', 'strchr($s, 58)-$s'), 'next($s) = strchr($s, 58)[1]'),
                             All('!strchr($s, 58)', copied('$s', '~')))),
                    Any(Stops('strchr($s, 58)[1] >= ~', '!strchr($s, 58)', '$s >= ~'), '$s >= ~', 'FindPackageAt(package, &~'),
                    Any(All('FindPackageAt(package, &~', 'return FindPackageAt(package, &~'), 'return FindPackageAt(package, "~')))),
        ], ways='all', only=['FindPackageAt']),
    ]


USAGE = {'pkgs/core/stdio.fble.c': 'pkgs/core/fble-stdio.fbld'}
GENERIC = [({'-h', '--help'}, False), ({'-v', '--version'}, False)]


def listed(rel):
    """The options of the usage text: (names of one option, whether it takes a value); whether it takes those of a module. None without text."""
    try:
        with open(os.path.join(fe.REPO, rel), encoding='latin-1') as f:
            text = f.read()
    except OSError:
        return None
    out = list(GENERIC) if '@GenericProgramInfo' in text else []
    for line in text.split('\n'):
        m = re.match(r'\s*@opt\[(.*)\]\s*$', line)
        if m:
            out.append((set(re.findall(r'@l\[(-[-\w]*)\]', m.group(1))), '@a[' in m.group(1) or '\\[' in m.group(1)))
    return out, '@ModuleInput' in text


def usage():
    """Each option of the usage text of a tool is read, with a value if it has one, into one place of its own."""
    out = []
    for rel in [r for r in fe.sources() if r.startswith('bin/') or r in USAGE]:
        got = listed(USAGE.get(rel, re.sub(r'\.c$', '.fbld', rel)))
        if got is None:
            continue
        tu = core.tu(rel)
        read, module, sure = {}, False, True
        for name, f in sorted(tu.functions.items()):
            if f.body is None:
                continue
            for n in fe.walk(f.body):
                if n.k != 'CallExpr':
                    continue
                c = fe.callee(n)
                if c == 'FbleParseModuleArg':
                    module = True
                elif c in ('FbleParseBoolArg', 'FbleParseStringArg'):
                    opts = lint.strings(n.c[1])
                    if opts is None:
                        sure = False
                        continue
                    place = [x.name for x in fe.walk(n.c[2]) if x.k in ('DeclRefExpr', 'MemberExpr')]
                    for o in opts:
                        read.setdefault(o, []).append((c == 'FbleParseStringArg', tuple(place), n.line, name))
        if not read and not module:
            continue
        r = {'rel': rel, 'func': 'usage', 'status': 'ok', 'violations': [], 'stats': {'ways': len(got[0]), 'obligations': 0}, 'samples': []}

        def bad(line, fn, msg):
            r['violations'].append({'rule': 'options', 'file': rel, 'line': line, 'function': fn, 'root': fn, 'path': '', 'msg': msg})
        if got[1] and not module and sure:
            bad(1, 'main', 'the usage text takes the options of a module, which are not read')
        owner = {}
        for names, value in got[0]:
            places = {}
            for o in sorted(names):
                r['stats']['obligations'] += 1
                if o not in read:
                    if sure:
                        bad(1, 'main', 'option %s of the usage text is not read' % o)
                    continue
                for v, place, line, fn in read[o]:
                    places[place] = (line, fn, o)
                    if v != value:
                        bad(line, fn, 'option %s %s a value in the usage text and %s one here' % (o, 'takes' if value else 'has no', 'takes' if v else 'has no'))
            if len(places) > 1:
                line, fn, o = sorted(places.values())[-1]
                bad(line, fn, 'the forms of the option %s are read into different places' % o)
            for p, (line, fn, o) in places.items():
                if p and p in owner:
                    bad(line, fn, 'options %s and %s are read into the same place' % (owner[p], o))
                owner.setdefault(p, o)
        out.append(r)
    return out


if __name__ == '__main__':
    import rules
    for r in rules.check(options()) + usage():
        if r['status'] != 'ok':
            print((r['rel'], r['func'], r['status'], r.get('why')))
        for v in r['violations']:
            print((r['rel'], r['func'], v['line'], v['msg']))
