"""C23 online denoiser"""
import numpy as np
from vt import dec, duderef
from inference import OnlineDude

RULE = ("sequences of 0-120 symbols (alphabets 2-4, context 0-4, symmetric and general channels, Hamming and general losses, hard and soft, i.i.d., sticky and "
        "constant sources) denoised one by one and as a sequence, with resets and given contexts in between. Non-trivial: longer than the context")
REQUIRED = ["samples", "hard estimates", "soft estimates", "cost", "context filling", "sequence call", "reset", "initial context", "wrong context", "bad symbol",
            "alphabet above 2", "no context", "settings left out"]


def history(case):
    rnd, rng = case.rnd, case.rng
    hard = rnd.random() < 0.6
    a = rnd.choice([2, 2, 3, 4]) if hard else 2
    k = rnd.choice([0, 1, 2, 3, 4])
    channel, loss = duderef.rand_channel(rng, a), duderef.rand_loss(rng, a)
    d = OnlineDude(channel, loss, k, **dec.trim(case, OnlineDude, dict(hard_decision=hard, alphabet_size=a)))
    ref = duderef.OnlineRef(channel, loss, k, hard, a)
    n = rnd.choice([0, 1, 5, rnd.randint(6, 120)])
    stick = rnd.choice([0, 0.5, 0.9, 1])
    zs = []
    for _ in range(n):
        zs.append(zs[-1] if zs and rnd.random() < stick else int(rng.integers(a)))
    case.note(hard, a, k, channel.tolist(), loss.tolist(), n, stick, zs[:40])
    case.interesting(n > k)
    keep_c, keep_l = channel.copy(), loss.copy()
    if rnd.random() < 0.3:
        seq = np.array(zs, dtype=np.int_)
        est, costs = d.denoise_sequence(seq)
        case.array_equal(seq, zs, "the sequence was altered")
        case.equal((len(est), len(costs)), (n, n), "length of the result")
        out = list(zip(est, costs))
        case.hit("sequence call")
    else:
        out = None
    for i, z in enumerate(zs):
        if out is None and rnd.random() < 0.02:
            d.reset()
            ref.__init__(channel, loss, k, hard, a)
            case.hit("reset")
        if out is None and rnd.random() < 0.02:
            ctx = tuple(int(x) for x in rng.integers(0, a, k))
            d.initial_context(ctx)
            ref.ctx = list(ctx)
            case.hit("initial context")
            case.raises(ValueError, lambda: d.initial_context(ctx + (0,)), "a context of another length was taken")
            case.hit("wrong context")
        if out is None and rnd.random() < 0.02:
            case.raises(ValueError, lambda: d.denoise_sample(rnd.choice([-1, a, a + 5])), "a symbol outside the alphabet was taken")
            case.hit("bad symbol")
        filling = len(ref.ctx) < k
        we, wc, sure = ref.step(z)
        e, c = out[i] if out is not None else d.denoise_sample(z)
        if hard:
            if sure:
                case.equal(int(e), int(we), f"estimate of sample {i}")
                case.hit("hard estimates")
            case.close(c, wc, f"cost of sample {i}", rtol=1e-6, atol=1e-7)
        elif sure:
            e = np.asarray(e, dtype=float).reshape(-1)
            case.close(e, we, f"posterior of sample {i}", rtol=1e-6, atol=1e-8)
            case.check(abs(e.sum() - 1) < 1e-9 and e.min() >= -1e-12, f"sample {i}: not a distribution", e)
            case.close(c, wc, f"cost of sample {i}", rtol=1e-6, atol=1e-8)
            case.hit("soft estimates")
        case.hit("cost")
        case.hit("samples")
        case.hit("context filling", filling)
        case.hit("no context", k == 0)
        case.hit("alphabet above 2", a > 2)
    case.check(np.array_equal(channel, keep_c) and np.array_equal(loss, keep_l), "channel or loss was altered")


WORKLOADS = [("history", history, 2000, 40000)]
