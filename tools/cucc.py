#!/usr/bin/env python3
"""g++ for CUDA sources on the stand-in runtime of harness/cuda: preprocesses a source, turns every kernel launch
   expr<<<config>>>( arguments ) into cudaEmu::launch( [&]( auto... a ) { expr( a... ); }, config )( arguments ) and compiles the result."""
import re, subprocess, sys


def matching_back(s, i):
    """the beginning of the expression which ends before i"""
    while s[i - 1].isspace():
        i -= 1
    if s[i - 1] == ')':
        depth, k = 0, i - 1
        while True:
            if s[k] == ')':
                depth += 1
            elif s[k] == '(':
                depth -= 1
                if depth == 0:
                    return k, i
            k -= 1
    k = i
    while re.match(r'[\w:]', s[k - 1]):
        k -= 1
    return k, i


def transform(s):
    out = ''
    while True:
        m = re.search(r'<<\s*<', s)
        if not m:
            return out + s
        b, e = matching_back(s, m.start())
        close = re.compile(r'>>\s*>').search(s, m.end())
        out += s[:b] + ' cudaEmu::launch( [&]( auto... a_ ) { ' + s[b:e] + '( a_... ); }, ' + s[m.end():close.start()] + ' ) '
        s = s[close.end():]


def main(argv):
    args, src, obj, dep = [], None, None, None
    it = iter(argv)
    for a in it:
        if a == '-o':
            obj = next(it)
        elif a == '-MF':
            dep = next(it)
        elif a == '-c':
            src = next(it)
        elif a == '-MMD':
            pass
        else:
            args.append(a)
    ii = obj + '.ii'
    r = subprocess.run(['g++'] + args + ['-x', 'c++', '-E', src, '-MMD', '-MF', dep, '-MT', obj, '-o', ii])
    if r.returncode:
        return r.returncode
    with open(ii) as f:
        s = f.read()
    with open(ii, 'w') as f:
        f.write(transform(s))
    with open(dep) as f:
        d = f.read()
    with open(dep, 'w') as f:
        f.write(d.rstrip() + ' ' + __file__ + '\n')
    return subprocess.run(['g++'] + [a for a in args if not a.startswith('-I')] + ['-x', 'c++-cpp-output', '-c', ii, '-o', obj]).returncode


sys.exit(main(sys.argv[1:]))
