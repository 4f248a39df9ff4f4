"""Texts whose first and last characters may be blanks, capitals or slashes, around a text of any length."""


def edged(ctx, name, max_nb, first=' A', last=' A/'):
    return ctx.chars(name + '.first', 1, first) + ctx.text(name, max_nb=max_nb - 2) + ctx.chars(name + '.last', 1, last)


def spelled(ctx, name, max_nb):
    """as it can stand in a configuration file: no blanks at the ends"""
    return edged(ctx, name, max_nb, 'aA', 'aA/')
