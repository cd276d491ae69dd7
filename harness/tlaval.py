"""Read the states TLC writes with -dump."""
import re

TOK = re.compile(r'\s*(<<|>>|\|->|/\\|@@|:>|[\[\]{}(),]|"[^"]*"|-?\d+|\w+)')


def value(s):
    toks = TOK.findall(s)
    pos = [0]

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def seq(end):
        out = []
        while toks[pos[0]] != end:
            out.append(val())
            if toks[pos[0]] == ',':
                nxt()
        nxt()
        return out

    def val():
        t = nxt()
        if t == '<<':
            return seq('>>')
        if t == '{':
            return seq('}')
        if t == '[':
            out = {}
            while True:
                k = nxt()
                nxt()
                out[k] = val()
                if nxt() == ']':
                    return out
        if t[0] == '"':
            return t[1:-1]
        return {'TRUE': True, 'FALSE': False}[t] if t in ('TRUE', 'FALSE') else int(t)
    return val()


def states(path, only=None):
    """the states of a dump file as dictionaries"""
    cur, name, out = {}, None, []
    for l in open(path):
        m = re.match(r'(?:/\\ )?(\w+) = (.*)', l)
        if l.startswith('State '):
            if cur:
                out.append(cur)
            cur, name = {}, None
        elif m:
            name = m.group(1)
            cur[name] = m.group(2)
        elif l.strip() and name:
            cur[name] += ' ' + l.strip()
    if cur:
        out.append(cur)
    return [{k: value(v) for k, v in s.items() if only is None or k in only} for s in out]
