#!/usr/bin/env python3
"""Copies the crate under another version, so that one program can be linked with both of its builds."""
import os, shutil, sys, tomllib


def val(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
    if isinstance(v, list):
        return '[' + ', '.join(val(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{ ' + ', '.join('%s = %s' % (k, val(x)) for k, x in v.items()) + ' }'
    return str(v)


def copy(repo, out):
    t = tomllib.load(open(os.path.join(repo, 'Cargo.toml'), 'rb'))
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    shutil.copytree(os.path.join(repo, 'src'), os.path.join(out, 'src'))
    if os.path.exists(os.path.join(repo, 'build.rs')):
        shutil.copy(os.path.join(repo, 'build.rs'), out)
    p = {k: v for k, v in t['package'].items() if k in ('name', 'edition', 'build')}
    p['version'] = '0.0.1'
    o = '[package]\n' + ''.join('%s = %s\n' % (k, val(v)) for k, v in p.items())
    o += '\n[dependencies]\n'
    for k, v in t.get('dependencies', {}).items():
        if isinstance(v, dict) and 'path' in v:
            v = dict(v, path=os.path.abspath(os.path.join(repo, v['path'])))
        o += '%s = %s\n' % (k, val(v))
    o += '\n[features]\n' + ''.join('%s = %s\n' % (k, val(v)) for k, v in t.get('features', {}).items())
    o += '\n[workspace]\n'
    open(os.path.join(out, 'Cargo.toml'), 'w').write(o)


if __name__ == '__main__':
    copy(sys.argv[1], sys.argv[2])
