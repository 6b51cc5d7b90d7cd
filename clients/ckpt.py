"""Most general client of the checkpoint life cycle.  Parsed and analysed together with the package, never run."""
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional
from pathlib import Path
import hyperstate
from hyperstate import StateManager, Lazy, Serializable


@dataclass
class Inner:
    a: int
    b: str = "x"


@dataclass
class Cfg:
    lr: float
    inner: Inner
    name: str = "cfg"


class Weights(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return Weights(state_dict["v"])


@dataclass
class St(Lazy):
    step: int
    data: str
    w: Weights
    inner: Inner


def manager(ckdir, init, **kw):
    return StateManager(Cfg, St, init, checkpoint_dir=ckdir, **kw)


def fresh(n, d, v, a):
    def init(config, ctx):
        return St(n, d, Weights(v), Inner(a))

    return init


def no_init(config, ctx):
    return St(-1, "lost", Weights("lost"), Inner(-1))


def start(ckdir, overrides, n, d, v, a):
    m = manager(ckdir, fresh(n, d, v, a), overrides=overrides)
    m.step()
    return m


def advance(m, n, d, v, a):
    s = m.state
    s.step = n
    s.data = d
    s.w = Weights(v)
    s.inner.a = a


def step(m):
    m.step()


def resume(ckdir):
    return manager(ckdir, no_init)


def observe(m):
    s = m.state
    return (s.step, s.data, s.w.v, s.inner.a, s.inner.b, m.config.lr, m.config.name, m.config.inner.a)


def load_dir(path):
    m = StateManager(Cfg, St, no_init, init_path=path)
    return m


def checkpoint(m, target):
    m.checkpoint(target)


class Failing(Serializable):
    """a lazy field whose serialization fails"""

    def serialize(self):
        raise RuntimeError("not serializable")

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return None


class Opaque:
    pass


def fail_blob(m):
    m.state.w = Failing()


def fail_state(m):
    m.state.data = Opaque()


def fail_config(m):
    m.config.name = Opaque()


def make(init_path, n, d, v, a):
    return StateManager(Cfg, St, fresh(n, d, v, a), init_path=init_path)


@dataclass
class DCfg:
    """a config with a default for every field"""
    lr: float = 0.25
    inner: Inner = field(default_factory=lambda: Inner(7))
    name: str = "cfg"


@dataclass
class Plain:
    """a state without lazy fields, and another checkpoint key"""
    epoch: int
    data: str
    inner: Inner


def default_manager(n, d, v, a, **kw):
    return StateManager(DCfg, St, fresh(n, d, v, a), **kw)


def plain_init(n, d, a):
    def init(config, ctx):
        return Plain(n, d, Inner(a))

    return init


def plain_manager(ckdir, init_path, n, d, a):
    return StateManager(Cfg, Plain, plain_init(n, d, a), init_path=init_path, checkpoint_dir=ckdir, checkpoint_key="epoch")


def plain_advance(m, n, d, a):
    s = m.state
    s.epoch = n
    s.data = d
    s.inner = Inner(a)


def plain_observe(m):
    s = m.state
    return (s.epoch, s.data, s.inner.a, s.inner.b, m.config.lr, m.config.name, m.config.inner.a)


def set_config(m, lr, a):
    m.config.lr = lr
    m.config.inner.a = a


def set_dir(m, d):
    m.checkpoint_dir = d


def set_key(m, n):
    m.state.step = n
