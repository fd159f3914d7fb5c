#!/usr/bin/env python3
"""Put the table of planted bugs into DESIGN.md."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'c03-bolt-refresh-unsigned', 'c04-session-put-chunks', 'c06-bolt-destroy-chunk', 'c12-bolt-nosync-sweep', 'c14-bolt-shared-arena', 'c20-redis-create-unchecked', 'c14-bolt-keys-unsafe', 'c02-redis-long-lifetime', 'c20-redis-keys-prefix', 'c06-manager-destroy-trim', 'c07-bolt-little-endian', 'c08-mem-sweep-limit', 'c06-redis-destroy-scan', 'c15-hmac-trim-key', 'c03-bolt-refresh-many', 'c15-hmac-cache-name', 'c18-mem-full-batch', 'c04-redis-put-batches', 'c19-redis-refresh-gap', 'c14-mem-keys-cached', 'c13-redis-refresh-again', 'c16-id-counter', 'c09-redis-canceled-closed', 'c20-redis-prefix-dot', 'c21-mem-method-alias', 'c02-mem-unixnano', 'c05-mem-utf8-keys', 'c14-mem-large-nocopy', 'c10-mem-destroy-two-locks'}
rows = ['| bug | check | needs |', '|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append('| %s%s | %s | %s |' % (n, ' (*)' if n in MISSED else '', m['property'], m['needs']))
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
p = R + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDED_TABLE', t) if 'SEEDED_TABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
