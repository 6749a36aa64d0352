"""Thin wrappers over the public API: an exception on supported input is a violation."""
from __future__ import annotations

import traceback

from vlib.runner import Violation


def make_strategies(kw):
    from lazy_type_hint.strategies import ParsingStrategies

    return ParsingStrategies(**kw)


def tree_of(data, kw, name="Example"):
    from lazy_type_hint import LazyTypeHint

    try:
        return LazyTypeHint(make_strategies(kw)).from_data(data, class_name=name)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"generation fails: {type(e).__name__}: {e}", data=data, strategies=kw, class_name=name,
                        trace=traceback.format_exc(limit=-4)) from None


def text_of(data, kw, name="Example", **render):
    tree = tree_of(data, kw, name)
    try:
        return tree.to_string(**render)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"rendering fails: {type(e).__name__}: {e}", data=data, strategies=kw, class_name=name,
                        trace=traceback.format_exc(limit=-4)) from None


def diff_strategies(kw):
    from vlib.gen import DEFAULTS

    return {k: v for k, v in kw.items() if DEFAULTS.get(k) != v}
