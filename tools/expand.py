"""Macro-expanded source of the code under test, as rustc produces it: the definitions of idl/samples.thrift fed to the thrift! macro
of /repo/runtime, and the parquet crate."""
import os, re, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

def clean(t):
    """paths that lead to items the woven crate keeps in one name space; doc attributes"""
    t = t.replace('::compact_thrift_runtime::', '').replace('::core::default::Default', 'Default')
    t = re.sub(r'\b(?:std|core)::result::Result\b', 'Result', t)
    t = t.replace('Box<dyn ', 'Box<dyn ')
    return t

def expand(which, repo, tmp):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    d = tempfile.mkdtemp(prefix='ex_', dir=tmp)
    try:
        env['CARGO_TARGET_DIR'] = os.path.join(d, 'target')
        if which == 'samples':
            os.makedirs(os.path.join(d, 'src'))
            open(os.path.join(d, 'Cargo.toml'), 'w').write(f'[package]\nname = "samples"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ncompact-thrift-runtime = {{ path = "{repo}/runtime" }}\n[workspace]\n')
            open(os.path.join(d, 'src', 'lib.rs'), 'w').write('#![allow(unused_imports)]\nuse compact_thrift_runtime::*; use std::rc::Rc; use std::sync::Arc;\n' + open(os.path.join(VERIF, 'idl', 'samples.thrift')).read())
            cwd = d
        else:
            # a copy: cargo may want to write Cargo.lock
            cwd = os.path.join(d, 'ws')
            shutil.copytree(repo, cwd, ignore=shutil.ignore_patterns('target', '.git', 'node_modules', '*.parquet'))
            cwd = os.path.join(cwd, 'parquet')
        p = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=expanded'], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
        if p.returncode != 0 or 'impl' not in p.stdout: raise RuntimeError('expansion failed: ' + p.stderr[-300:])
        return clean(p.stdout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
