"""Text fragments shared by the driver programs of the estimation models."""

# names expected: o, r, j (treatment index), a, b (documented score elements)
SCORE = '''
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, {j}], a)
        EQ("P04,P07:psi_b", o.psi_elements["psi_b"][:, r, {j}], b)
'''
EST = '''
        pa = o.psi_elements["psi_a"][:, r, {j}]; pb = o.psi_elements["psi_b"][:, r, {j}]
        th = o.all_coef[{j}, r]
        EQ("P05,P07:coef", th, -np.mean(pb) / np.mean(pa))
        EQ("P05,P07:psi", o.psi[:, r, {j}], pa * th + pb)
        EQ("P05,P07:se", o.all_se[{j}, r], np.sqrt(np.mean(o.psi[:, r, {j}] ** 2) / np.mean(pa) ** 2 / n))
'''
# the repetition loop collects rr (Riesz representer), nu (score of its second moment), s2 (squared outcome residual)
SENS0 = '''
        nus.append(nu); rrs.append(rr); s2s.append(s2)
        ASSUME(np.mean(nu) > 0)
'''
SENS1 = '''
    for r in range({R}):
        s2 = s2s[r]; nu = nus[r]; rr = rrs[r]
        EQ("P18,P07:sigma2", o.sensitivity_elements["sigma2"][0, r, 0], np.mean(s2))
        EQ("P18,P07:psi_sigma2", o.sensitivity_elements["psi_sigma2"][:, r, 0], s2 - np.mean(s2))
        EQ("P18,P07:riesz_rep", o.sensitivity_elements["riesz_rep"][:, r, 0], rr)
        EQ("P18,P07:nu2", o.sensitivity_elements["nu2"][0, r, 0], np.mean(nu))
        EQ("P18,P07:psi_nu2", o.sensitivity_elements["psi_nu2"][:, r, 0], nu - np.mean(nu))
'''


def fill(text, **kw):
    for k, v in kw.items():
        text = text.replace("{" + k + "}", str(v))
    return text


FP = "    FP = lambda p, k: p[k] if isinstance(p, list) else p\n"


def foldpar(par, K):
    """the same parameter settings, but another value for every fold (one repetition)"""
    import re
    par = re.sub(r'\{"a": SCALAR\("(\w+)"\)\}', lambda m: '[{"a": SCALAR("%s%%d" %% k_)} for k_ in range(%d)]' % (m.group(1), K), par)
    par = re.sub(r'(set_ml_nuisance_params\([^,]+, "d", )([\w\[\]]+)\)', r'\1[\2])', par)
    return par
