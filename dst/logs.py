"""Collection of execution logs: sessions on a simulated system, recorded by several loggers and delivered over a faulty channel."""


def collect(sim, alphabet, run, sessions, max_len, truncate=True):
    """run(word) -> outputs after each input. -> list of sessions [(input, output), ...] as recorded"""
    logs = []
    for _ in range(sessions):
        n = sim.int(0, max_len)
        word = [alphabet[sim.choose(len(alphabet))] for _ in range(n)]
        tr = list(zip(word, run(word)))
        sim.tick(0.01 * (n + 1))
        if truncate and n and sim.flip(0.1):
            tr = tr[:sim.choose(n)]
            sim.fault('logger crashed during the session')
        logs.append(tr)
    return logs


def deliver(sim, items, lossy=True):
    """What arrives of the recorded items: lost, duplicated, reordered."""
    out = []
    p_lost, p_dup = sim.pick([(0, 0), (0, 0.2), (0.1, 0), (0.1, 0.2)])
    for x in items:
        if lossy and p_lost and sim.flip(p_lost):
            sim.fault('record lost')
            continue
        out.append(x)
        if p_dup and sim.flip(p_dup):
            sim.fault('record duplicated')
            out.append(x)
    if sim.flip(0.6) and len(out) > 1:
        order = sim.shuffle(list(range(len(out))))
        out = [out[i] for i in order]
        sim.fault('records reordered')
    return out
