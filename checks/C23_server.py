# Answers requests of C23.cc with what the Python reader of the repository returns.
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'python'))
import numpy as np
import sdf


def text(x):
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(text(y) for y in x) + ']'
    x = np.asarray(x)
    if np.iscomplexobj(x):
        k, x = 'z', x.astype('<c16')
    else:
        k, x = 'd', x.astype('<f8')
    return k + '(' + ','.join(str(n) for n in x.shape) + ')' + x.tobytes(order='F').hex()


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        w = line.rstrip('\n').split('\t')
        try:
            if w[0] == 'load':
                r = sdf.load(w[1])
            elif w[0] == 'dataset':
                r = sdf.load_dataset(w[1])
            else:
                r = sdf.load_sorted_dataset(w[1], w[2])
            a = 'OK ' + ';'.join((k if isinstance(k, str) else repr(k)).encode('utf-8').hex() + '=' + text(v) for k, v in r.items())
        except Exception as e:
            a = 'EXC %s %s' % (type(e).__name__, ' '.join(str(e).split()))
        out.write(a + '\n')
        out.flush()


main()
