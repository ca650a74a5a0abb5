# The one description of all properties and checks. 'python3 tools/gen.py'
# writes properties.jsonl, MANIFEST.json and checks/*.json from it.
PROPS, CHECKS, NA = [], {}, []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 3, (id, statement.count(". "))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

def J(harness, params=None, delays=0, reach=None, bound="", **kw):
    j = dict(harness=harness, params=params or {})
    if delays: j["delays"] = delays
    if reach: j["reach"] = reach
    j["bound"] = bound
    j.update(kw)
    return j

def check(id, quick, thorough=None, bounds=None, assumptions=None, in_package=None, note=None, technique=None):
    CHECKS[id] = dict(quick=quick, thorough=thorough or quick, bounds=bounds or [], assumptions=assumptions or [], in_package=in_package or [],
                      note=note, technique=technique)

def not_applicable(id, reason):
    NA.append(dict(property=id, reason=reason))
