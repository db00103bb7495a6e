"""Attributes that the classes of the repository keep (the state the contracts know): pyvc/known_attrs.json.
Not run by the checks: a method that keeps state in an attribute not listed here leaves its obligations undecided,
since the contracts say nothing about that state between calls."""
import ast, json, subprocess
out = {}
for f in subprocess.run(['git', '-C', '/repo', 'ls-files', '*.py'], capture_output=True, text=True).stdout.split():
    if f.startswith('tests'):
        continue
    for n in ast.walk(ast.parse(open('/repo/' + f).read())):
        if isinstance(n, ast.ClassDef):
            s = set()
            for m in n.body:
                if isinstance(m, (ast.Assign, ast.AnnAssign)):
                    for t in (m.targets if isinstance(m, ast.Assign) else [m.target]):
                        if isinstance(t, ast.Name):
                            s.add(t.id)
            for m in ast.walk(n):
                if isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Store) and isinstance(m.value, ast.Name):
                    a = m.attr
                    if a.startswith('__') and not a.endswith('__'):
                        a = '_' + n.name.lstrip('_') + a
                    s.add(a)
            if s:
                out[n.name] = sorted(set(out.get(n.name, [])) | s)
json.dump({k: v for k, v in sorted(out.items()) if not k.startswith('MAVLink_')}, open('/verif/pyvc/known_attrs.json', 'w'), indent=0)
