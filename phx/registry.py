"""Which behaviours decide which property."""
from .core import Job
from .adapters.dex import Dex
from .adapters.life import Life
from .adapters.rewards import Rewards
from .adapters.stable import Stable
from .adapters.stake import Stake
from .adapters.token import Token
from .adapters.trader import Trader
from .adapters.vesting import Vesting
from .adapters.xyk import Xyk

ASSUMPTIONS = [
    "the Soroban host (soroban-env-host 22.0.0-rc.3, testutils recording mode) executes wasm as the network does",
    "signatures are modelled as the set of accounts a call needs: a call is made either with everything it "
    "asks for signed (and the set it asked for compared with the specification) or with nothing signed",
    "resource metering is switched off: budget exhaustion is not modelled",
]

# property -> tier -> jobs
TABLE = {
    "P01": [(Xyk, "step", 224, 40), (Xyk, "step", 96, 30, "initLarge")],
    "P02": [(Xyk, "step", 224, 40), (Xyk, "step", 96, 30, "initTaxed"), (Xyk, "step", 48, 30, "initLarge")],
    "P03": [(Xyk, "lpStep", 224, 40), (Xyk, "lpStep", 72, 30, "initTaxed"), (Xyk, "lpStep", 48, 30, "initLarge")],
    "P04": [(Xyk, "lpStep", 224, 40), (Xyk, "lpStep", 48, 30, "initTaxed"), (Xyk, "lpStep", 48, 30, "initLarge")],
    "P05": [(Xyk, "step", 112, 40), (Xyk, "lpStep", 112, 40), (Xyk, "step", 48, 30, "initLarge")],
    "P06": [(Xyk, "step", 184, 30), (Xyk, "step", 72, 30, "initLarge")],
    "P07": [(Xyk, "adminStep", 224, 30)],
    "S01": [(Stable, "step", 200, 40), (Stable, "step", 48, 30, "initQuotes")],
    "S02": [(Stable, "lpStep", 224, 40), (Stable, "lpStep", 72, 30, "initTaxed")],
    "S03": [(Stable, "step", 224, 40), (Stable, "step", 96, 30, "initTaxed")],
    "S04": [(Stable, "step", 112, 40), (Stable, "lpStep", 104, 40), (Stable, "lpStep", 24, 24, "initTaxed")],
    "S05": [(Stable, "step", 184, 30, "initQuotes")],
    "S06": [(Stable, "adminStep", 224, 30)],
    "F01": [(Dex, "adminStep", 168, 30)],
    "F02": [(Dex, "adminStep", 168, 30)],
    "F03": [(Dex, "adminStep", 168, 30)],
    "F04": [(Dex, "holderStep", 80, 40), (Dex, "holderStep", 32, 24, "initMarket")],
    "M01": [(Dex, "routeStep", 96, 40), (Dex, "routeStep", 64, 24, "initMarket")],
    "M02": [(Dex, "routeStep", 96, 40), (Dex, "routeStep", 64, 24, "initMarket")],
    "M03": [(Dex, "routeStep", 96, 40), (Dex, "routeStep", 64, 24, "initMarket")],
    "T01": [(Token, "step", 224, 60)],
    "T02": [(Token, "step", 224, 60)],
    "T03": [(Token, "adminStep", 224, 40)],
    "K01": [(Stake, "step", 224, 50), (Stake, "step", 48, 24, "initMany")],
    "K02": [(Stake, "step", 224, 50), (Stake, "step", 48, 24, "initMany")],
    "K03": [(Stake, "step", 224, 50), (Stake, "step", 48, 24, "initMany"), (Stake, "step", 40, 30, "initFlows")],
    "K04": [(Stake, "adminStep", 208, 40), (Stake, "step", 40, 30, "initFlows")],
    "R01": [(Rewards, "fundStep", 136, 40), (Rewards, "step", 96, 40)],
    "R02": [(Rewards, "step", 224, 40)],
    "R03": [(Rewards, "fundStep", 224, 40)],
    "D01": [(Trader, "step", 168, 40)],
    "D02": [(Trader, "step", 168, 40)],
    "V01": [(Vesting, "step", 224, 50), (Vesting, "step", 48, 24, "initMany")],
    "V02": [(Vesting, "step", 224, 50), (Vesting, "step", 48, 24, "initMany")],
    "V03": [(Vesting, "createStep", 224, 40)],
    "V04": [(Vesting, "minterStep", 224, 50)],
    "E01": [(Xyk, "step", 40, 40), (Xyk, "lpStep", 16, 24, "initTaxed"), (Stable, "step", 40, 30), (Stake, "step", 40, 50),
            (Rewards, "step", 40, 40), (Vesting, "step", 24, 50), (Vesting, "minterStep", 24, 40), (Trader, "step", 40, 40),
            (Dex, "routeStep", 24, 30), (Dex, "holderStep", 16, 30), (Token, "step", 32, 50)],
    "X01": [(Life, "step", 96, 40)],
}
NOTE = ("Random, state-directed behaviours of an explicit Quint specification (every public entry point, arguments "
        "at and one off each limit), with the property's invariants evaluated on every state of every behaviour and "
        "every call replayed into the release wasm built from /repo; acceptance, results, required authorisations "
        "and the whole observable state are compared exactly.  Sampled, not exhaustive; trusts the Soroban host.")
THOROUGH = 12  # times the behaviours of the quick tier


def jobs(prop, tier):
    out = []
    for a, step, n, k, *init in TABLE[prop]:
        m = THOROUGH if tier == "thorough" else 1
        parts = 8 if m == 1 else 8 * 3
        opts = {"parts": parts}
        if prop == "E01":
            opts["invariants"] = ["announced"]
        out.append(Job(a, n * m, k, step=step, init=(init or ["init"])[0], opts=opts))
    return out

