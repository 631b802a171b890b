def de_bruijn(alphabet, n):
    """A cyclic word that contains every word of length n over the alphabet exactly once; returned unrolled."""
    k = len(alphabet)
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    import sys
    sys.setrecursionlimit(10000)
    db(1, 1)
    out = out + out[:n - 1]
    return [alphabet[i] for i in out]


def segments(word, size, overlap):
    """Pieces of a long tour that together contain each of its windows of length overlap+1."""
    i, out = 0, []
    while True:
        out.append(word[i:i + size])
        if i + size >= len(word):
            return out
        i += size - overlap
