"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MK = 'src/nempy/markets.py'
BE = 'src/nempy/spot_market_backend/'
HI = 'src/nempy/historical_inputs/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note='', technique=None, claimed=True, reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe),
                  note=note, technique=technique, claimed=claimed, reason=reason))


MARKET_TECH = ('TLA+ specification of the market (Market.tla) with trace validation by TLC: histories of public calls are run on the real '
               'market and every reported outcome is judged by the specification')
MARKET_NOTE = ('Every explored history of calls is replayed through the specification by TLC in exact integer arithmetic; optimality, '
               'infeasibility and price verdicts rest on certificates that TLC re-checks, so the external solver is not trusted. Bounded by the '
               'generated histories (1-6 units, 1-4 regions, up to 5 bands); cases whose certificate does not close are counted as undecided. '
               'C01, C05, C12 and C13 also replay the units of MCReach.tla, where TLC walks a unit tick by tick over small grids and proves the limits exact.')

prop('C01', 'Unit dispatch never leaves the offered bands or the unit limits',
     'In every dispatch, each unit\'s output and each load\'s consumption lies between zero and the volume it offered, at or below its bid '
     'capacity and its intermittent generation forecast, and within what its bid and telemetered ramp rates allow from its initial output over '
     'the dispatch interval. A limit is broken only where the caller made it elastic, and is never enforced tighter than stated. Every unit that '
     'offered volume is reported.',
     ['inputs', 'histories', 'configurations'], 'All sets of units, bids, limits, ramp rates, dispatch intervals and orders of the defining calls.',
     'The tests dispatch about a dozen hand-written markets, with one limit active at a time.',
     [MK, BE + 'unit_constraints.py', BE + 'ramp_rate_processing.py', BE + 'variable_ids.py'],
     [('variable bounds from bids', BE + 'variable_ids.py:bids'), ('capacity constraints', BE + 'unit_constraints.py:capacity'),
      ('ramp constraints', MK + ':set_unit_ramp_rate_constraints'), ('composite SCADA/bid rates', BE + 'ramp_rate_processing.py')],
     ['get_unit_dispatch', 'dispatch'])
prop('C02', 'Dispatch is least cost and the reported objective is its cost',
     'Every dispatch costs no more, at bid prices referred to the regional reference node and with violation penalties, than any other dispatch '
     'satisfying the constraints in force, and the reported objective value is exactly that cost. A market that can be dispatched is never '
     'refused, and one that cannot is reported infeasible instead of being given a dispatch.',
     ['inputs', 'histories', 'configurations'], 'All markets: bids, loss factors, loads, interconnectors, elastic and hard constraints.',
     'Tests compare a few dispatches with hand-computed ones; optimality over all admissible dispatches is a universal statement they do not make.',
     [MK, BE + 'objective_function.py', BE + 'solver_interface.py'],
     [('bid costs', BE + 'objective_function.py:energy,bids'), ('scaling to the node', BE + 'objective_function.py:scale_by_loss_factors'),
      ('building and solving the model', MK + ':dispatch'), ('solver wrapper', BE + 'solver_interface.py:InterfaceToSolver')],
     ['get_unit_dispatch', 'objective_value'])
prop('C03', 'Energy balances in every region, and the region summary adds up',
     'In every dispatch the net output of the units of a region, plus inflows adjusted by interconnector loss factors, minus the region\'s share of '
     'interconnector losses, equals the region\'s demand (unless demand is elastic and the shortfall is penalised). The region dispatch summary '
     'lists every such region and its columns close the same balance.',
     ['inputs', 'configurations'], 'All numbers of regions, parallel interconnectors, directions, loss shares, loss factors, loads and storages.',
     'The tests cover single two-region examples; sign and share mistakes on other topologies are not reached.',
     [MK, BE + 'market_constraints.py', BE + 'interconnectors.py'],
     [('balance constraint', BE + 'market_constraints.py:energy'), ('flow terms', BE + 'interconnectors.py:create_flow..'),
      ('summary', MK + ':get_region_dispatch_summary')],
     ['get_unit_dispatch', 'get_interconnector_flows', 'get_region_dispatch_summary'])
prop('C04', 'Energy prices are the marginal cost of demand',
     'The energy price reported for a region is the marginal cost of serving its demand: for no change of the regional demands, with interconnectors '
     'staying on the loss segments in use, does the least cost of serving the changed demand fall below what the reported prices say it costs. A '
     'price, never missing and never not-a-number, is reported for every region with demand.',
     ['inputs', 'configurations'], 'All markets, including negative prices, scarcity, elastic constraints and lossy interconnectors.',
     'Tests check prices of a few examples with one marginal band; the definition quantifies over all dispatches of all perturbed markets.',
     [MK, BE + 'solver_interface.py'],
     [('prices from the linear model', MK + ':dispatch'), ('linearisation at the flows', MK + ':_remove_unused_interpolation_weights'),
      ('price lookup', MK + ':get_energy_prices')],
     ['get_energy_prices'])
prop('C05', 'FCAS enablement stays inside the trapezium shared with energy',
     'In every dispatch each unit\'s reserve enablement is within its offered and maximum availability, and contingency reserve, regulation and '
     'energy together stay inside each declared trapezium and inside the joint ramping limits, each service in the direction it moves the unit and '
     'mirrored for loads, neither exceeded nor imposed tighter than declared. The availability reported for a service is how far its enablement could '
     'go with everything else held.',
     ['inputs', 'configurations'], 'All trapezium shapes, combinations of services, generators and loads, initial outputs and telemetered rates.',
     'Tests exercise single trapezia at hand-picked points.',
     [MK, BE + 'fcas_constraints.py'],
     [('maximum availability', MK + ':set_fcas_max_availability'), ('joint ramping', BE + 'fcas_constraints.py:joint_ramping'),
      ('joint capacity', BE + 'fcas_constraints.py:joint_capacity_constraints'),
      ('energy and regulation', BE + 'fcas_constraints.py:energy_and_regulation_capacity_constraints')],
     ['get_unit_dispatch', 'get_fcas_availability'])
prop('C06', 'FCAS requirements are met and FCAS prices are their marginal cost',
     'In every dispatch each reserve requirement set is met by the total enablement of the services in the regions it lists, including any terms '
     'linked to the set. The price of a service in a region is the sum of the marginal costs of the requirement sets that cover it, and is reported '
     'for every region and service covered.',
     ['inputs', 'configurations'], 'All overlapping local and global requirement sets, requirement types and elasticities.',
     'Tests use one or two non-overlapping requirements.',
     [MK, BE + 'market_constraints.py'],
     [('requirement rows', BE + 'market_constraints.py:fcas'), ('price aggregation', MK + ':get_fcas_prices')],
     ['get_unit_dispatch', 'get_fcas_prices'])
prop('C07', 'Interconnector flows respect limits and losses follow the loss function',
     'Every reported flow is within its interconnector\'s or link\'s limits, the reported loss is the interpolated loss function at that flow, and at '
     'most one link of an interconnector carries flow. Losses are split between the two regions by the stated share and neither flows nor losses are '
     'constrained beyond that.',
     ['inputs', 'configurations'], 'All topologies, break point spacings, loss shares and two-link interconnectors, in either flow direction.',
     'Tests cover a few flows with evenly spaced break points.',
     [MK, BE + 'interconnectors.py', BE + 'solver_interface.py'],
     [('flow variables', BE + 'interconnectors.py:create'), ('interpolation weights and SOS2', BE + 'interconnectors.py:link_weights_to_inter_flow'),
      ('one link at a time', BE + 'solver_interface.py:add_sos_type_1')],
     ['get_interconnector_flows', 'get_energy_prices'])
prop('C08', 'Generic constraints bind exactly the linked quantities',
     'Every generic constraint in force holds over the weighted sum of exactly the unit, region and interconnector quantities linked to it, with its '
     'stated direction and right-hand side, for every service and both sides of storages. Terms linked to a constraint that is not in force have no '
     'effect.',
     ['inputs', 'histories'], 'All mixtures of linked units, regions, interconnectors and links, coefficient signs and constraint types.',
     'Tests link one kind of term at a time.',
     [MK, BE + 'solver_interface.py'],
     [('linking calls', MK + ':link_units_to_generic_constraints'), ('assembling the left-hand side', BE + 'solver_interface.py:create_*_generic_constraint_lhs')],
     ['get_unit_dispatch', 'get_interconnector_flows'])
prop('C09', 'Elastic constraints are violated only when cheaper, and to the reported degree',
     'A constraint made elastic is violated exactly when paying its violation cost is cheaper than meeting it, in either direction for equalities, at '
     'that set\'s own cost per MW; constraints not made elastic are never violated. The violation degree reported for a group is the total amount by '
     'which its constraints are missed.',
     ['inputs', 'histories'], 'All groups, numeric and per-set costs, elasticity set at definition or later, several groups violated at once.',
     'Tests make one group elastic at a time in one small market.',
     [MK, BE + 'elastic_constraints.py'],
     [('deficit variables', BE + 'elastic_constraints.py:create_deficit_variables'), ('elastic calls', MK + ':make_constraints_elastic'),
      ('degree', MK + ':get_elastic_constraints_violation_degree')],
     ['get_unit_dispatch', 'objective_value', 'get_elastic_constraints_violation_degree'])
prop('C12', 'Fast-start units follow their inflexibility profile',
     'A fast-start unit is held at zero in modes 0 and 1, on the loading line in mode 2, at or above minimum loading in mode 3 and at or above the '
     'unwinding line in mode 4, according to the mode and time at the end of the interval. Ramping limits of such units are lifted or restarted at '
     'minimum loading exactly in the runs and modes documented, and other units are unaffected.',
     ['inputs', 'histories'], 'All modes, times in mode, mode lengths, run types and mixtures with ramping and reserve constraints.',
     'Tests cover each mode once with one parameter set.',
     [MK, BE + 'unit_constraints.py'],
     [('fast start constraints', BE + 'unit_constraints.py:fast_start_*'), ('exempted ramping', MK + ':set_unit_ramp_rate_constraints')],
     ['get_unit_dispatch'])
prop('C13', 'Bidirectional units are dispatched as one device',
     'A unit registered on both sides moves along a single axis: ramping from charging to discharging (or back) uses the rate of each side for the '
     'part of the interval spent on it, and reserve enabled on both sides shares one headroom and footroom. Otherwise each side obeys the limits of an '
     'ordinary generator or load, and the net of both is what reaches the region.',
     ['inputs', 'configurations'], 'All initial outputs either side of zero, rates of both sides, telemetered rates and reserve offers on either side.',
     'Tests contain a handful of storage examples, mostly not crossing zero.',
     [MK, BE + 'ramp_rate_processing.py', BE + 'fcas_constraints.py'],
     [('zero crossing rates', BE + 'ramp_rate_processing.py'), ('shared trapezia', BE + 'fcas_constraints.py:joint_capacity_constraints')],
     ['get_unit_dispatch'])


prop('C10', 'Over-constrained pricing re-runs remove penalties, only when due',
     'When the caller asks for it, and only when the dispatch violates elastic reserve requirements or generic constraints and an energy price reaches '
     'the given ceiling or floor or a reserve price the given ceiling, the market is solved again with the violated constraints relaxed by the amount '
     'they were missed plus 0.01 MW, and the prices reported are the marginal costs of that relaxed market. Dispatch, violations and objective stay those of the first '
     'solve, and without cause the prices are those of the first solve.',
     ['inputs', 'histories'], 'All mixtures of violated constraint groups, prices around the thresholds and interconnector losses.',
     'Tests trigger the re-run with one violated group in one or two markets.',
     [MK, BE + 'solver_interface.py'],
     [('re-run trigger', MK + ':dispatch'), ('relaxing violated rows', MK + ':dispatch (over constrained branch)')],
     ['get_energy_prices', 'get_fcas_prices', 'get_unit_dispatch'])
prop('C11', 'Equally priced bids share dispatch in proportion to their volume',
     'With tie breaking enabled, energy bids in a region whose prices at the regional node are equal are dispatched in proportion to the volume each '
     'offers, however many are tied, as far as the tie-break penalty allows; least cost is never given up for it, and markets without ties are '
     'unaffected.',
     ['inputs', 'configurations'], 'All numbers of tied bands, volumes, loss factors, regions, generators and loads.',
     'Tests tie two units once.',
     [MK, BE + 'solver_interface.py', BE + 'unit_constraints.py'],
     [('tie break rows', BE + 'unit_constraints.py:tie_break_constraints'), ('call', MK + ':set_tie_break_constraints')],
     ['get_unit_dispatch'],
     technique='TLA+ specification of proportional sharing (TieBreak.tla): cases enumerated by TLC (MCTie) and random ones are dispatched on the real market '
               'and the result judged by TLC',
     note='Water-filling over tied groups is specified in integer arithmetic and compared with every dispatched unit; bounded by 2-10 units in 1-2 regions.')
prop('C14', 'The market in force is the latest definition of each part, in any order',
     'A market object can be re-used: whatever the order of the calls and however often inputs are redefined or constraints made elastic, each dispatch is '
     'that of the most recent definition of every part, and equals the dispatch of a fresh market given those definitions. Defining or dispatching one '
     'part changes no other.',
     ['histories', 'inputs'], 'All sequences of defining, redefining, linking, elasticity and dispatch calls.',
     'Tests define each part once, in one order, and dispatch once.',
     [MK],
     [('set_* calls storing definitions', MK + ':SpotMarket'), ('model rebuilt each dispatch', MK + ':dispatch')],
     ['get_unit_dispatch', 'get_energy_prices', 'get_elastic_constraints_violation_degree'],
     technique='TLA+ state machine of the market; all call histories to length 3 (4 thorough) are enumerated by TLC, a sample and random longer ones are '
               'replayed on the real market and judged by the specification')
VALID_TECH = ('TLA+ specification of what every call accepts (Validate.tla): TLC enumerates sound tables and every single alteration of them, they are '
              'handed to the real market, and the recorded histories of refusals are judged by the specification')
prop('C15', 'Unsound input is refused with the documented error and changes nothing',
     'A table with missing, unexpected or wrongly typed columns, infinite, missing or (where documented) negative values, unknown units, regions or '
     'services, repeated keys, falling bid prices or one side only of a storage is refused with the documented error, as are calls made before what '
     'they build on. Sound tables are accepted, whatever the order of their rows and columns. After any number of refused tables the market dispatches '
     'as if they had never been given.',
     ['inputs', 'histories'], 'All tables of all public calls and every way of altering them; all histories of refused calls.',
     'Tests try one alteration of one table at a time, and do not dispatch afterwards.',
     [MK, BE + 'dataframe_validator.py'],
     [('column and key rules', BE + 'dataframe_validator.py:DataFrameSchema,SeriesSchema'), ('rules per call', MK + ':_validate_*'),
      ('call order', MK + ':_check_unit_volume_bids_set, dispatch, make_constraints_elastic')],
     ['all set_* and link_* calls', 'dispatch'],
     note='Exhaustive over single alterations of two market variants (4144 tables, each handed to the real market), random over repeated alterations. '
          'Where documentation and code disagree on a restriction nobody could rely on (negative demand, ramp rates, requirements and trapezia; '
          'null joint ramping data; repeated break points under different segments) nothing is claimed.', technique=VALID_TECH)
prop('C16', 'Dispatched output of one interval is the starting point of the next',
     'Chaining intervals with the time sequential helper starts every unit at the output it was dispatched to in the previous interval, or at zero for '
     'units that were not dispatched, leaves all other ramp data as given, and so the next dispatch obeys ramping from there.',
     ['histories', 'inputs'], 'All sequences of intervals, with units appearing and disappearing.',
     'Tests merge two hand-written tables.',
     ['src/nempy/time_sequential.py', MK],
     [('next interval start', 'src/nempy/time_sequential.py:construct_ramp_rate_parameters'), ('summary of dispatch', MK + ':get_unit_dispatch')],
     ['construct_ramp_rate_parameters', 'get_unit_dispatch'])
HI = 'src/nempy/historical_inputs/'
RHS_TECH = ('TLA+ specification of the stack machine of the constraint guidelines (Rhs.tla, exact dyadic arithmetic): TLC enumerates short equations, these '
            'and random longer ones are written into case files, evaluated by the real calculator and judged by the specification')
prop('C17', 'Right hand sides are evaluated as the constraint guidelines define',
     'For every equation made of the documented term types and operators (values, constants, stack operations, groups, functions, defaults where no value '
     'is known), the calculated right hand side is the result of the stack machine of the AEMO Constraint Implementation Guidelines, appendix A. '
     'Several SCADA values of one id are summed. Equations with branches, or that operate on stack elements that are not there, are refused.',
     ['inputs'], 'All equations over all term types, operators, factors and values.',
     'Tests evaluate one short equation per operator, and the comparison with historical values needs data that is not there.',
     [HI + 'rhs_calculator.py'],
     [('stack machine', HI + 'rhs_calculator.py:_rpn_stack'), ('values of terms', HI + 'rhs_calculator.py:_resolve_term_value'),
      ('groups', HI + 'rhs_calculator.py:_collect_group')],
     ['compute_constraint_rhs'], technique=RHS_TECH,
     note='Exhaustive for equations of one and two terms over a menu of about a hundred terms (length three in the thorough model), random to length nine with groups. '
          'Not claimed where guidelines and code leave the meaning open: terms without a value other than in the operations that use the default, '
          'constants in STEP and POP, ADD and EXLEZ on a short stack, groups that end with a group.')
prop('C18', 'Right hand side inputs can be changed and asked about consistently',
     'After any sequence of updates of input values and of evaluations, one at a time or many at once, a right hand side is that of the equation with the values now in '
     'force; calculators on the same case do not influence each other; evaluating changes nothing. Values that cannot be changed (constants, region values, functions, '
     'unknown ids, ids with several values) are refused and nothing changes. The constraints reported as depending on a value are exactly those whose equation, '
     'or a function it refers to, uses it, each once.',
     ['histories', 'inputs'], 'All histories of updates, evaluations and queries over all equations.',
     'Tests change one value once.',
     [HI + 'rhs_calculator.py'],
     [('update', HI + 'rhs_calculator.py:update_spd_id_value'), ('dependents', HI + 'rhs_calculator.py:get_rhs_constraint_equations_that_depend_value'),
      ('evaluation', HI + 'rhs_calculator.py:compute_constraint_rhs')],
     ['compute_constraint_rhs', 'get_rhs_constraint_equations_that_depend_value', 'get_nemde_rhs'],
     technique='TLA+ state machine of the calculator (Rhs.tla: values, Update, Eval, DependsOn); recorded histories of the real calculator are replayed in it by TLC',
     note='Random histories of 4 to 13 calls on one or two calculators over random equations, with SCADA, unit, entered and market link values.')
prop('C19', 'An interval loads its own NEMDE case and fetches only what is missing',
     'Loading an interval loads the case file of that five minute interval of its market day (which starts with the interval of 04:05), the first run if it '
     'is there and the over constrained rerun otherwise. What is in the cache is not requested again; what is not is requested with the parcel of its '
     'market day, once more if it arrives broken; if it is nowhere MissingDataError is raised. Populating brings in every case of the dates asked for, '
     'first and last included. The search for violated intervals returns the first ones in order of time.',
     ['histories', 'inputs'], 'All dates and intervals, all contents of cache and archive, all histories of loads.',
     'Tests check the name of a few files; nothing without the network is tested.',
     [HI + 'xml_cache.py', HI + 'loaders.py'],
     [('names', HI + 'xml_cache.py:get_file_name,_get_interval_number'), ('fetching', HI + 'xml_cache.py:load_interval,_download_xml_from_nemweb'),
      ('populating', HI + 'xml_cache.py:populate,populate_by_day'), ('search', HI + 'xml_cache.py:find_intervals_with_violations')],
     ['load_interval', 'get_file_name', 'populate', 'find_intervals_with_violations', 'is_over_constrained_dispatch_rerun'],
     technique='TLA+ state machine of cache and archive (Cache.tla): TLC checks it and enumerates all histories of three loads in three worlds; these and random longer '
               'ones run on the real manager over a stand-in archive and are judged by the specification',
     note='Exhaustive for histories of three loads (1029 histories), random for longer ones, for populating and for searching. The network is a stand-in '
          'below the HTTP library; failures of the connection itself are not modelled.')


UNIT_TECH = ('TLA+ specification of unit inputs (Units.tla, exact rational arithmetic), checked and enumerated by TLC; synthetic NEMDE cases and MMS tables go '
             'through the real loaders and UnitData, and TLC judges every table they return')
prop('C20', 'Unit inputs are those of the case',
     'For every historical case, every offer of the case shows up once with its own volumes and prices (energy prices referred to the regional reference node with the loss '
     'factors in force), under the unit, service and side it was made for, and nothing else shows up; availabilities, forecasts, ramp rates, telemetered rates, starting '
     'points (those of the pricing run under an intervention), regions and loss factors are those the case and the MMS tables give for the interval the loader is set to, '
     'whatever intervals it was set to before and whatever else was asked for.',
     ['inputs', 'histories'], 'All cases and tables; all intervals visited before and orders of calls.',
     'Tests of these inputs need downloaded cases and compare single ones.',
     [HI + 'units.py', HI + 'xml_cache.py', HI + 'loaders.py'],
     [('unit inputs', HI + 'units.py:UnitData'), ('case file', HI + 'xml_cache.py:XMLCacheManager'), ('side of an offer', HI + 'units.py:_map_direction_to_volume_bids')],
     ['get_unit_bid_availability', 'get_unit_uigf_limits', 'get_bid_ramp_rates', 'get_scada_ramp_rates', 'get_initial_unit_output', 'get_unit_info', 'get_processed_bids'],
     technique=UNIT_TECH,
     note='Random cases of 2 to 9 units of all kinds, calls in any order. Every offer gives all its attributes; units without details in DUDETAILSUMMARY are expected '
          'to be left out of bids and unit information.')
prop('C21', 'FCAS offers are scaled and enabled as NEMDE does',
     'For every case, the trapezium of an offer is the offered one tightened by telemetered AGC limits, telemetered ramp rates and the forecast of '
     'intermittent generation, with the slopes of the offer kept, and never larger than offered; exactly those offers are passed on that meet the preconditions for enablement '
     '(availability and volume above zero, unit within the enablement range where it starts and able to reach it, AGC on for regulation, storage sides taken together). Asking '
     'for trapezia before they have been added is refused.',
     ['inputs', 'histories'], 'All offers, telemetry, forecasts and starting points; all orders of calls.',
     'The tests check some values of each scaling function separately.',
     [HI + 'units.py'],
     [('AGC limits', HI + 'units.py:_scaling_for_agc_enablement_limits'), ('ramp rates', HI + 'units.py:_scaling_for_agc_ramp_rates'), ('forecast', HI + 'units.py:_scaling_for_uigf'),
      ('preconditions', HI + 'units.py:_enforce_preconditions_for_enabling_fcas'), ('order of calls', HI + 'units.py:add_fcas_trapezium_constraints')],
     ['get_processed_bids', 'add_fcas_trapezium_constraints', 'get_fcas_max_availability', 'get_fcas_regulation_trapeziums', 'get_contingency_services'],
     technique=UNIT_TECH,
     note='Exhaustive over a grid of 7700 offers (124068 in the thorough model), each also run in the real code; random cases with all services and kinds of units. Offers '
          'whose enablement maximum comes to exactly zero are not judged (documentation and code differ); storage with telemetered AGC enablement limits is not generated.')
prop('C22', 'Fast start units advance five minutes per interval',
     'For every inflexibility profile and place in it, the end mode and the time in it after an interval are those five minutes further along the profile, starting from '
     'commitment if a unit that was off is dispatched, and staying off if it is not; the time never leaves the profile; minutes since the end of mode two are counted '
     'from that end. Under an intervention the what-if mode and time are used.',
     ['inputs', 'histories'], 'All profiles, modes, times and dispatch decisions.',
     'Tests advance a few profiles.',
     [HI + 'units.py'],
     [('modes', HI + 'units.py:_update_modes'), ('profiles', HI + 'xml_cache.py:get_unit_fast_start_parameters')],
     ['get_fast_start_profiles_for_dispatch'],
     technique='TLA+ transition system of a fast start unit (Units.tla, MCFast.tla): TLC checks that exactly five minutes pass per step over all profiles with lengths from a menu; '
               'both successors of every state are recomputed by the real code and judged by TLC; random profiles besides',
     note='Exhaustive for 11125 states (81920 in the thorough model), mode lengths 0 to 7 (0 to 9) minutes. A dispatched unit is one with energy dispatch above zero.')


prop('C23', 'Network inputs are those of the case',
     'For every historical case, demand, interconnectors (limits, directions, loss factors, one link each way for market interconnectors, available as offered), '
     'losses as a function of flow (the integral of the marginal loss factor in force, mirrored on links against the interconnector), break points, '
     'generic constraints in force (right hand side of the physical run, sense, terms of units, regions and interconnectors), regional FCAS requirements, '
     'violation prices and reported violations are those the case and the MMS tables give for the interval the loader is set to, each once and nothing else, '
     'whatever intervals it was set to before and whatever else was asked for.',
     ['inputs', 'histories'], 'All cases and tables; all intervals visited before and orders of calls.',
     'Tests of these inputs need downloaded cases and compare single ones.',
     [HI + 'interconnectors.py', HI + 'constraints.py', HI + 'demand.py', HI + 'xml_cache.py'],
     [('interconnectors', HI + 'interconnectors.py:InterconnectorData'), ('losses', HI + 'interconnectors.py:create_loss_functions'), ('constraints', HI + 'constraints.py:ConstraintData'),
      ('demand', HI + 'demand.py:DemandData'), ('case file', HI + 'xml_cache.py:get_constraint_rhs,get_violations,get_constraint_region_lhs')],
     ['get_operational_demand', 'get_interconnector_definitions', 'get_interconnector_loss_model', 'get_rhs_and_type', 'get_rhs_and_type_excluding_regional_fcas_constraints',
      'get_unit_lhs', 'get_region_lhs', 'get_interconnector_lhs', 'get_fcas_requirements', 'get_violation_costs', 'get_constraint_violation_prices', 'get_violations',
      'get_service_prices', 'is_intervention_period', 'is_over_constrained_dispatch_rerun'],
     technique='TLA+ specification of network inputs (Network.tla, exact arithmetic); synthetic NEMDE cases and MMS tables go through the real loaders and TLC judges every table',
     note='Random cases of 2 to 5 regions and interconnectors and 2 to 9 constraints, with intervention runs, reruns, single and repeated terms, superseded versions. '
          'Prices of regulation and lower five minute services are left out of the check of get_service_prices: the attributes they have in real cases are not known here.')
prop('C24', 'The MMS database holds what was added and returns what applies to the interval',
     'After any sequence of table creations, monthly additions and settings, the tables hold exactly the rows of the physical run published for the months added, '
     'or the content of the month set last (for constraint tables with every earlier published version); populating covers all months asked for and the month before. '
     'Asked for an interval, each table returns exactly what applies: rows of that interval, the latest start date, the highest version of the latest effective date not after it, '
     'the versions used in dispatch. Months that are not published, and rows that are already there, are refused and change nothing.',
     ['histories', 'inputs'], 'All archives, histories of fillings and intervals.',
     'Without the network tests only query small tables made by hand.',
     [HI + 'mms_db.py'],
     [('filling', HI + 'mms_db.py:add_data,set_data,populate'), ('queries', HI + 'mms_db.py:get_data'), ('archive', HI + 'mms_db.py:get_url,_download_to_df')],
     ['create_tables', 'populate', 'add_data', 'set_data', 'get_data'],
     technique='TLA+ state machine of the database (Mms.tla): TLC checks its invariants and enumerates all histories of three fillings; these and random longer ones run on the real '
               'database over a stand-in archive and are judged by the specification',
     note='Exhaustive for histories of three fillings out of thirteen (2197 histories), random for populating and longer ones, years 2010 to 2012 and the change of file names of August 2024. '
          'Rows inserted by hand into tables made by create_tables are not covered (there versions are text). What becomes of a constraint table when no month at all is published is left open.')

prop('C25', 'Markets, input tables and reports do not share state',
     'A call on a market leaves the tables it is given as they were. What a market holds is decided by the content of the tables at the time of the call alone: altering, re-using or emptying them afterwards, '
     'setting the same table again or on another market, other markets that are set up and dispatched in between, and writing over the reports it returned change nothing about its dispatch, prices and reports. '
     'Reading a report does not change what it or any other report says when read next.',
     ['histories', 'inputs'], 'All histories of calls on one or two markets, alterations of the tables and reports, and readings.',
     'Tests use one market each, with tables that are set once and never touched again, and read each report once.',
     [MK],
     [('tables given', MK + ':set_*,link_*'), ('reports', MK + ':get_*')],
     ['tables passed to SpotMarket', 'SpotMarket.get_*'],
     technique='TLA+ state machine of two markets with tables and reports (Share.tla): TLC checks that a market depends only on the contents at the time of its calls and enumerates the histories; these and '
               'random ones (each doubled into a session of two interleaved markets sharing tables) run on the real code and every market is judged by the market specification (MarketTrace)',
     note='Exhaustive in the model for histories of three steps after the markets are made (thorough: four), sampled on the code; the random sessions draw on the generators of the market properties. Indexes of tables and row order are varied.')



def emit():
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80, p['id']
    man = {'version': 1, 'setup_cmd': 'bash harness/setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 harness/check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 harness/check.py %s --tier thorough' % p['id'],
                       'technique': p['technique'] or MARKET_TECH, 'level': 'model_checking', 'level_note': p['note'] or MARKET_NOTE}
                      for p in P if p['claimed']],
           'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']]}
    json.dump(man, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
        sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(ROOT + '/properties.jsonl'):
            jsonschema.validate(json.loads(l), sc)
        print('schemas ok', len(P))
    except ImportError:
        print('no jsonschema')


if __name__ == '__main__':
    emit()
