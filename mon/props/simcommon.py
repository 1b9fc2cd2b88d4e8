"""Shared runner for the properties decided by the side-by-side simulation."""

from __future__ import annotations

from ..sim import Sim


def run_history(case, obs, *, final=True, **kwargs):
    sim = Sim(obs, **kwargs)
    try:
        for op in case["ops"]:
            sim.step(op)
        if final:
            sim.final()
        obs.ev("histories completed")
    finally:
        sim.close()
    return sim
