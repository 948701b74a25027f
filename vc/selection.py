"""Which instances decide which property, and in which tier."""
import acc
import api
import instances


def _parts(i):
    g, nm, rest = i.name.split('__', 2)
    it, *fl = rest.split('_')
    return g, nm, it, fl


SAFETY = {'read-in-range', 'step-in-range', 'match-in-range', 'range-passed', 'rest-called-in-range', 'end-in-range', 'captures-well-formed', 'no-overflow',
          'span-in-range', 'position-in-range', 'empty-on-failure', 'result-defined'}
TERM = {'termination', 'induction-progress', 'step-in-range', 'rest-called-in-range', 'iteration-progress', 'iteration-stops', 'position-in-range'}
# obligations whose failure breaks the property itself (None: all of them)
KINDS = {'C11': SAFETY, 'C12': TERM}


def quick_quant(nm, it, fl):
    # flags do not interact with the iterator category: with flags, one forward and one reversed iterator
    return not fl or it in ('raw', 'rraw') and (fl != ['ungreedy', 'unroll'] or it == 'raw')


SMALL = ('_6_6', '_8_8', '_0_6', '_3_6', '_5_inf')


def affordable(prop, i, g, nm, it, fl):
    """the additional instances (other inputs, irrelevant flags, large numbers) that fit the quick tier"""
    if i.extra == 'big':
        if prop in ('C18', 'C11'):
            return it != 'raw' and not fl and (it == 'fwd' or prop == 'C18') and (g == 'seq' and nm in ('c6', 'c7', 'c8', 'c12', 'c16', 'n8') or prop == 'C18' and g == 'alt' and nm in ('c8', 'n8') or
                                               g in ('quant', 'poss') and any(nm.endswith(x) for x in ('c_5_5', 'c_6_6', 'c_8_8', 'c_10_10', 'c_16_16', 'c_20_20', 'n_6_6')))
        if prop == 'C01':
            return True
        return it == 'raw' and prop in ('C01', 'C02', 'C03') and (g in ('seq', 'alt') or not fl and ('c_' in nm or any(nm.endswith(x) for x in SMALL)))
    if prop == 'C11':
        return it == 'urev' and g in ('seq', 'atomic', 'cap', 'bref', 'anchor') and 'star' not in nm
    if i.extra == 'iter':
        return g not in ('quant', 'poss') or prop == 'C18'
    if i.extra == 'flag':
        return g not in ('quant', 'poss') or fl == ['unroll'] or len(fl) > 2
    return True


def pick(prop, thorough):
    out = []
    for i in instances.build(thorough):
        g, nm, it, fl = _parts(i)
        ok = False
        if i.extra and (not thorough and not affordable(prop, i, g, nm, it, fl) or '_plus_set' in nm or g == 'bref' and nm in ('cap_then', 'seq') and 'icase' in fl):
            continue
        if prop == 'C01':
            ok = g in ('seq', 'alt')
        elif prop == 'C02':
            ok = g == 'quant' and (thorough or bool(i.extra) or quick_quant(nm, it, fl))
        elif prop == 'C03':
            ok = g == 'atomic' or g == 'poss' and (thorough or bool(i.extra) or quick_quant(nm, it, fl) and not (fl and it == 'rraw'))
        elif prop == 'C04':
            ok = g == 'look'
        elif prop == 'C05':
            ok = g == 'chr'
        elif prop == 'C06':
            ok = g == 'anchor'
        elif prop == 'C07':
            ok = g == 'cap' or thorough and g in ('seq', 'alt', 'atomic', 'look') or \
                g in ('seq', 'alt') and nm in ('n1', 'n2', 'n3', 'ncn') or g == 'atomic' and nm in ('n', 'seq') or \
                g == 'look' and nm.endswith('_n') or g in ('quant', 'poss') and it == 'raw' and not fl and nm.split('_', 1)[1] in ('n_0_1', 'n_1_2', 'n_2_2') or \
                g == 'poss' and it == 'raw' and not fl and nm in ('n_0_1', 'n_1_2', 'n_2_2', 'n_0_inf')
        elif prop == 'C08':
            ok = g == 'bref' and (thorough or bool(i.extra) or 'icase' not in fl or it in ('raw', 'rraw') or nm == 'id1' and it == 'bidi')
        elif prop == 'C11':
            ok = i.kind == 'match' and (i.extra == 'big' or thorough and (g not in ('quant', 'poss') or not fl or it == 'raw') or it == 'urev' or
                                        g in ('chr', 'seq', 'atomic') and it in ('raw', 'fwd', 'rraw') and not fl or g == 'anchor' and it in ('bidi', 'rraw') or
                                        g == 'look' and 'nest' not in nm and it in ('raw', 'rraw') or g == 'bref' and it in ('bidi', 'rraw') and not fl or
                                        g == 'cap' and it == 'raw' and 'star' not in nm or
                                        g in ('quant', 'poss') and it in ('raw', 'fwd') and not fl and any(nm.endswith(x) for x in ('c_2_4', 'c_3_3', 'c_2_inf', 'n_0_inf', 'c_0_inf', 'c_0_2', 'n_2_2')))
        elif prop == 'C12':
            ok = g in ('quant', 'poss') and (nm.endswith('_inf') or 'star' in nm) and (thorough or not fl and it in ('raw', 'fwd') and ('_2_inf' not in nm and '_3_inf' not in nm or it == 'raw')) or \
                g == 'cap' and 'star' in nm and (thorough or it == 'raw') or g == 'bref' and not fl and it == 'bidi' or g == 'look' and ('star' in nm or 'plus' in nm)
        elif prop == 'C18':
            ok = i.kind == 'match' and not fl and (thorough and g != 'quant' or i.extra == 'big' or
                                                   g == 'chr' and nm in ('a', 'wild', 'set') or g in ('seq', 'alt') and nm in ('n2', 'c1', 'c2', 'c3', 'cn', 'nc', 'c5') or
                                                   g == 'anchor' and 'seq' not in nm or g == 'look' and nm in ('pos_ahead_c', 'pos_behind_c', 'neg_ahead_n', 'neg_behind_n', 'pos_behind_cc') or
                                                   g == 'cap' and nm in ('n', 'c', 'seq') or g == 'bref' and nm == 'id1' or
                                                   g in ('quant', 'poss') and any(nm.endswith(x) for x in ('c_0_1', 'c_2_4', 'c_3_3', 'n_2_2', 'n_0_inf', 'n_0_2')) or
                                                   g == 'quant' and nm in ('greedy_c_0_inf', 'lazy_c_0_inf'))
        if ok:
            out.append(i)
    return out + api.pick(prop, thorough) + acc.pick(prop, thorough)


PROVED = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C16', 'C18')
