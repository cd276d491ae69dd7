"""Which histories, specifications and clauses decide which property."""
import collections
import market_part as mp
import history_part as hp
import tie_part
import validate_part
import rhs_part
import cache_part
import units_part
import network_part
import mms_part
import grid_part
import reach_part
import share_part

LIMIT_ROWS = ['row:unit_bid_capacity', 'row:uigf_capacity', 'row:ramp_up', 'row:ramp_down']
BDU_ROWS = ['row:bidirectional_ramp_up', 'row:bidirectional_ramp_down']
FCAS_ROWS = ['row:fcas_max_availability', 'row:joint_ramping_raise_reg', 'row:joint_ramping_lower_reg', 'row:joint_ramping_raise_reg_bdu',
             'row:joint_ramping_lower_reg_bdu', 'row:joint_capacity', 'row:energy_and_regulation_capacity']
# limits are to bind exactly: a limit enforced too tightly shows as a dearer dispatch or a refusal
EXACT = ['not-least-cost', 'refused-feasible-market', 'objective', 'error']
PRICES = ['prices-not-marginal', 'price-missing', 'price-not-a-number', 'error']

ANY = ['bid-volume', 'unit-not-reported', 'row:', 'flow-limit', 'flow-not-reported', 'loss', 'two-links', 'violation-degree', 'summary:',
       'fcas-price-missing'] + PRICES + EXACT

M = lambda counts, clauses: mp.families({k: int(1.6 * v) for k, v in counts.items()}, clauses)
CHECKS = collections.OrderedDict([
    ('C01', [lambda ctx: ctx.model('MCWide', 'MCWide.cfg'), M({'limits': 400, 'ramps': 300}, ['bid-volume', 'unit-not-reported'] + LIMIT_ROWS + EXACT),
             reach_part.enumerated('Move', 3000)]),
    ('C02', [M({'cost': 500, 'mixed': 200}, EXACT + ['unit-not-reported', 'bid-volume']),
             grid_part.enumerated('Net', 300, EXACT + ['dispatched-infeasible-market'])]),
    ('C03', [M({'balance': 350, 'mixed': 100, 'links': 120, 'links_neg': 60}, ['row:demand', 'summary:', 'error', 'refused-feasible-market', 'not-least-cost'])]),
    ('C04', [M({'prices': 450, 'prices_neg': 250}, PRICES), grid_part.enumerated('Net', 300, PRICES)]),
    ('C05', [M({'fcas_unit': 250, 'fcas_trap': 250, 'fcas_jramp': 250}, FCAS_ROWS + ['availability', 'bid-volume'] + EXACT),
             reach_part.enumerated('Res', 2500)]),
    ('C06', [M({'fcas_req': 600}, ['row:fcas', 'fcas-price-missing'] + PRICES + EXACT),
             grid_part.enumerated('Co', 300, PRICES + EXACT + ['dispatched-infeasible-market'])]),
    ('C07', [M({'inter': 350, 'links': 200, 'links_neg': 100}, ['flow-limit', 'flow-not-reported', 'loss', 'two-links', 'row:demand'] + PRICES + EXACT)]),
    ('C08', [M({'generic': 500}, ['row:generic', 'row:fcas'] + EXACT)]),
    ('C09', [M({'elastic': 500}, ['violation-degree', 'row:'] + EXACT)]),
    ('C10', [M({'ocd': 450}, ['rerun-without-cause', 'rerun-prices-not-marginal'] + PRICES + ['row:', 'objective', 'not-least-cost'])]),
    ('C11', [tie_part.part]),
    ('C12', [M({'fast': 500}, ['row:fast_start'] + LIMIT_ROWS + FCAS_ROWS + EXACT),
             reach_part.enumerated('Start', 2500)]),
    ('C13', [M({'bdu': 350, 'bdu_fcas': 350}, ['bid-volume'] + LIMIT_ROWS + BDU_ROWS + FCAS_ROWS + EXACT),
             reach_part.enumerated('Move', 2500), reach_part.enumerated('Res', 2500)]),
    ('C14', [hp.enumerated(300, ANY), M({'history': 220}, ANY)]),
    ('C15', [validate_part.part]),
    ('C17', [rhs_part.enumerated, rhs_part.deep]),
    ('C18', [rhs_part.histories, rhs_part.all_histories]),
    ('C19', [cache_part.part]),
    ('C20', [units_part.inputs]),
    ('C21', [units_part.trap_model, units_part.storage_model, units_part.fcas]),
    ('C22', [units_part.fast_model, units_part.fast]),
    ('C23', [network_part.part]),
    ('C24', [mms_part.enumerated, mms_part.randoms]),
    ('C25', [share_part.enumerated(400, ANY + ['table-altered']), share_part.pairs({'history': 120, 'mixed': 100, 'elastic': 60, 'links': 60, 'bdu_fcas': 60, 'fast': 60}, ANY + ['table-altered'])]),
    ('C16', [M({'chain': 400}, LIMIT_ROWS + EXACT)]),
])


def run(ctx):
    for part in CHECKS[ctx.prop]:
        part(ctx)


def replay(ctx, rec):
    {'market': mp.replay, 'tie': tie_part.replay, 'validate': validate_part.replay, 'rhs': rhs_part.replay, 'cache': cache_part.replay,
     'units': units_part.replay, 'network': network_part.replay, 'mms': mms_part.replay, 'grid': grid_part.replay, 'reach': reach_part.replay}[rec['kind']](ctx, rec)
