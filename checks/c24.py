"""C24 two sided denoiser"""
import numpy as np
from vt import dec, duderef
from inference import DUDE

RULE = ("sequences of 1-200 symbols (alphabets 2-4, context 0-4 on each side, also longer than the sequence, symmetric and general channels and losses, hard and "
        "soft, i.i.d., sticky and constant sources). Non-trivial: some symbol has a full context")
REQUIRED = ["sequences", "hard estimates", "soft estimates", "mean cost", "edges kept", "shorter than its contexts", "alphabet above 2", "corrected symbols", "no context", "settings left out"]


def history(case):
    rnd, rng = case.rnd, case.rng
    hard = rnd.random() < 0.6
    a = rnd.choice([2, 2, 3, 4]) if hard else 2
    k = rnd.choice([0, 1, 2, 3, 4])
    channel, loss = duderef.rand_channel(rng, a), duderef.rand_loss(rng, a)
    n = rnd.choice([1, 2, 5, rnd.randint(6, 60), rnd.randint(60, 200)])
    stick = rnd.choice([0, 0.5, 0.9, 0.97, 1])
    zs = []
    for _ in range(n):
        zs.append(zs[-1] if zs and rnd.random() < stick else int(rng.integers(a)))
    zs = [z if rnd.random() > 0.05 else int(rng.integers(a)) for z in zs]
    obs = np.array(zs, dtype=np.int_)
    case.note(hard, a, k, channel.tolist(), loss.tolist(), n, stick, zs[:40])
    case.interesting(n > 2 * k)
    d = DUDE(channel, loss, k, **dec.trim(case, DUDE, dict(hard_decision=hard, alphabet_size=a)))
    est, cost = d.denoise_sequence(obs)
    case.array_equal(obs, zs, "the sequence was altered")
    ref = duderef.sequence(channel, loss, k, hard, a, zs)
    case.equal(len(est), n, "length of the result")
    for i, (we, wc, sure) in enumerate(ref):
        edge = i < k or i >= n - k
        if hard:
            if sure:
                case.equal(int(est[i]), int(we), f"estimate of symbol {i}")
                case.hit("corrected symbols", int(we) != zs[i])
                case.hit("hard estimates")
        elif sure:
            case.close(est[i], we, f"posterior of symbol {i}", rtol=1e-6, atol=1e-8)
            case.check(abs(est[i].sum() - 1) < 1e-9 and est[i].min() >= -1e-12, f"symbol {i}: not a distribution")
            case.hit("soft estimates")
        case.hit("edges kept", edge)
    if all(s for _, _, s in ref) or hard:
        case.close(cost, np.mean([c for _, c, _ in ref]), "mean cost", rtol=1e-6, atol=1e-7)
        case.hit("mean cost")
    again, cost2 = d.denoise_sequence(obs)
    case.check(np.array_equal(est, again) and cost == cost2, "denoising the same sequence again gave another result")
    case.hit("sequences")
    case.hit("shorter than its contexts", n <= 2 * k)
    case.hit("alphabet above 2", a > 2)
    case.hit("no context", k == 0)


WORKLOADS = [("history", history, 2000, 40000)]
