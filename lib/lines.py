"""Programs of independent lines: which lines the compiler takes, and what the
program made of those prints for each of them."""
import os
import re
import vf


def run(c, name, head, lines, main_extra=''):
    """lines: {i: text of the body of a function, which prints numbers}.
    Returns ({i: [numbers]}, set of refused lines, {key: [numbers]} of the rest)."""
    src = os.path.join(c.work, name + '.cpp')
    flags = ['g++', '-std=c++14', '-w', '-I' + c.include_dir()]
    head = head.strip('\n').split('\n') + ['#include <cstdio>']
    order = sorted(lines)
    bad, crashed, out, rest = set(), {}, {}, {}

    def write():
        with open(src, 'w') as f:
            f.write('\n'.join(head) + '\n')
            for i in order:
                f.write('' if i in bad else 'static void f%d() { %s }' % (i, lines[i]))
                f.write('\n')
            f.write('int main() {\nstd::setvbuf(stdout, nullptr, _IONBF, 0);\n' + main_extra)
            for i in order:
                if i not in bad and i not in crashed:
                    f.write('std::printf("\\n%d"); f%d();\n' % (i, i))
            f.write('std::puts(""); }\n')
    for _ in range(40):
        write()
        e = vf.sh(flags + ['-O0', '-fmax-errors=0', '-fno-diagnostics-show-caret', '-ftemplate-depth=400',
                           src, '-o', src[:-4]], timeout=300)
        if e.returncode == 0:
            r = vf.sh([src[:-4]], timeout=60)
            out, rest = {}, {}
            for line in r.stdout.splitlines():
                p = line.split()
                if p and p[0].isdigit():
                    last = int(p[0])
                    out[last] = [int(x) for x in p[1:]]
                elif p:
                    rest[p[0]] = [int(x) for x in p[1:]]
            out.update(crashed)
            if r.returncode == 0:
                return out, bad, rest
            if not out:
                raise vf.CheckError('%s: exit %d: %s' % (src, r.returncode, r.stderr[:2000]))
            crashed[last] = out[last] + [-999]  # the process died in this line
            continue
        new = set()
        for k in re.findall(r'^%s:(\d+):(?:\d+:)? *(?:required from|error:|fatal error:)' % re.escape(src), e.stderr, re.M):
            k = int(k) - 1 - len(head)
            if 0 <= k < len(order):
                new.add(order[k])
        if not new - bad:
            raise vf.CheckError('the program does not compile:\n' + e.stderr[:3000])
        bad |= new
    raise vf.CheckError('too many refused lines:\n' + e.stderr[:3000])
