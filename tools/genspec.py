"""One-off: start a specification module from an audited source module (docstrings stripped, @spec added)."""
import ast, sys, re
sys.path.insert(0, '/verif')
MAP = {
 'plaschem/chemistry.py': dict(default='C09', rules=[
   (r'__init__|assert_consistency', 'C05'), (r'copy', 'C11'), (r'set_protected_species|get_protected_species', 'C07'),
   (r'^disable$', 'C06 C07 C08'), (r'reset$', 'C06'), (r'_adhoc_', 'C12'),
   (r'dump_|load_|xml_hash|check_coherence', 'C10'), (r'ret_coefs|return_matrix', 'C13'),
   (r'stick_coef', 'C09 C13'), (r'stoich', 'C02')]),
 'plaschem/classification.py': dict(default='K16', rules=[]),
 'plaschem/latex.py': dict(default='L17', rules=[]),
 'plaschem/pretty_print.py': dict(default='L18', rules=[]),
 'plaschem/xml_inputs.py': dict(default='X15', rules=[(r'dump_xml|get_species_and|sort_el|assign_', 'X14')]),
 'pygmo_fwork/config.py': dict(default='G28', rules=[]),
 'pygmo_fwork/global_model.py': dict(default='G27', rules=[(r'log_results|numpy_to', 'G29'), (r'initial_n', 'E25'), (r'__init__|get_|num_', 'G28')]),
 'pygmo_fwork/results.py': dict(default='B36', rules=[]),
 'pygmo_fwork/optichem/errors.py': dict(default='O32', rules=[]),
 'pygmo_fwork/optichem/graph.py': dict(default='O33', rules=[]),
 'pygmo_fwork/optichem/morris.py': dict(default='O34', rules=[]),
 'pygmo_fwork/optichem/reduction.py': dict(default='O31', rules=[]),
 'pygmo_fwork/pygmol/equations.py': dict(default='E21', rules=[(r'__init__', 'E19 E20 E21'), (r'objective', 'E23'), (r'drho|power|el_en_losses|sheath|rho_corr', 'E20'),
    (r'rate_coeff', 'E22'), (r'dn_dt|source|sink|reaction_rates|n_corr|wall_fl', 'E19'), (r'dy_dt', 'E19 E20')]),
 'pygmo_fwork/pygmol/model.py': dict(default='R26', rules=[(r'_y0', 'E25')]),
 'pygmo_fwork/pygmol/model_parameters.py': dict(default='M18', rules=[]),
 'pygmo_fwork/pygmol/neutral_model.py': dict(default='N30', rules=[]),
}
PRIVATE_SPEC = {'_build_y0', '_y0_from_init_params', '_validate_y0', '_solve', '_post_process', '_parse_raw_sol', '_build_equations'}


class S(ast.NodeTransformer):
    def strip(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        return n
    visit_FunctionDef = visit_ClassDef = visit_Module = strip


def main(path):
    m = MAP[path]
    src = open('/repo/' + path).read()
    t = S().visit(ast.parse(src))
    mod = path[:-3].replace('/', '.')
    for n in t.body:
        fs = [n] if isinstance(n, ast.FunctionDef) else (n.body if isinstance(n, ast.ClassDef) else [])
        for f in fs:
            if not isinstance(f, ast.FunctionDef):
                continue
            if f.name.startswith('_') and not f.name.startswith('__') and f.name not in PRIVATE_SPEC:
                continue
            props = m['default']
            for r, p in m['rules']:
                if re.search(r, f.name):
                    props = p
                    break
            kw = [ast.keyword('aspects', ast.Constant('returns raises signature fields effects')),
                  ast.keyword('fields', ast.Constant('*'))]
            if f is n:
                kw.append(ast.keyword('function', ast.Constant(mod + '.' + f.name)))
            f.decorator_list.insert(0, ast.Call(ast.Name('spec', ast.Load()), [ast.Constant(props)], kw))
        if isinstance(n, ast.ClassDef):
            if any(isinstance(x, ast.Assign) for x in n.body):
                n.decorator_list.insert(0, ast.Call(ast.Name('tables', ast.Load()), [ast.Constant(m['default'])], []))
    if any(isinstance(n, ast.Assign) for n in t.body):
        t.body.append(ast.parse('TABLES = %r' % ((mod, m['default']),)).body[0])
    out = ast.unparse(ast.fix_missing_locations(t))
    # relative imports -> absolute
    pkg = mod.rsplit('.', 1)[0].split('.')
    def rel(mm):
        dots, name = len(mm.group(1)), mm.group(2)
        base = pkg[:len(pkg) - dots + 1]
        return 'from %s import' % '.'.join(base + ([name] if name else []))
    out = re.sub(r'from (\.+)(\w*) import', rel, out)
    dst = '/verif/spec/' + path.rsplit('/', 1)[1]
    open(dst, 'w').write('"""Reference semantics of %s.  Parsed, never executed."""\n' % path + out + '\n')
    print(dst, out.count('@spec'))


for p in sys.argv[1:] or MAP:
    main(p)
