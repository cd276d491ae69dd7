"""Families of market histories, one dictionary of feature probabilities per family."""
R2 = (2, 3)
PAIR = ['raise_6s', 'lower_6s']
FULL = ['raise_reg', 'lower_reg', 'raise_6s', 'lower_60s']

F = {
    # unit limits
    'limits': {'cap': .6, 'uigf': .5, 'ramp': .8, 'scada': .5, 'el_demand': .8, 'el_ramp': .2, 'el_cap': .1, 'load': .25, 'zeroband': .2},
    'ramps': {'ramp': 1, 'scada': .6, 'el_demand': .9, 'load': .3, 'nregions': (1, 2), 'bands': (1, 2), 'load_factor': (.1, 1.0)},
    # cost, prices
    'cost': {'cap': .3, 'ramp': .3, 'load': .3, 'lf': .8, 'inter': .3, 'loss': .5, 'el_demand': .6, 'bands': (1, 5), 'nunits': (2, 6),
             'price': (-60, 200), 'load_factor': (.1, 1.1), 'generic': .15, 'el_generic': .5},
    'prices': {'cap': .3, 'ramp': .2, 'el_ramp': .6, 'load': .2, 'lf': .6, 'el_demand': .7, 'chkprice': 1, 'nregions': (1, 3), 'inter': .7,
               'loss': .5, 'generic': .2, 'el_generic': .7, 'load_factor': (.1, 1.05), 'bands': (1, 4)},
    'prices_neg': {'lf': .6, 'el_demand': .7, 'chkprice': 1, 'nregions': (1, 3), 'inter': .7, 'loss': .6, 'price': (-200, 100), 'load': .3,
                   'load_factor': (.05, 1.05), 'bands': (1, 4)},
    # balance and summary
    'balance': {'inter': .9, 'loss': .7, 'ilf': .6, 'nregions': (1, 4), 'nunits': (2, 5), 'load': .3, 'el_demand': .5, 'summary': 1, 'ninter': 3,
                'parallel': 1, 'load_factor': (.1, .95), 'bdu': .15},
    # fcas
    'fcas_unit': {'services': FULL, 'maxav': .7, 'jcap': .7, 'ereg': .7, 'jramp': .6, 'el_demand': 1, 'el_fcas': .9, 'avail': 1, 'load': .25,
                  'cap': .2, 'nregions': (1, 2), 'el_jramp': .1, 'el_jcap': .05, 'fcaslink': 0},
    'fcas_trap': {'services': ['raise_reg', 'lower_6s', 'raise_60s', 'lower_reg'], 'jcap': 1, 'ereg': .8, 'el_demand': 1, 'el_fcas': .9, 'avail': 1,
                  'load': .35, 'nregions': (1, 1), 'nunits': (1, 3), 'fcas_tight': 1.0, 'load_factor': (.1, 1.0), 'fcasbid': .9},
    'fcas_jramp': {'services': ['raise_reg', 'lower_reg'], 'jramp': 1, 'ramp': .3, 'el_demand': 1, 'el_fcas': .9, 'load': .4, 'nregions': (1, 1),
                   'nunits': (1, 3), 'fcas_tight': 1.0, 'fcasbid': .9, 'avail': 1},
    'fcas_req': {'services': ['raise_reg', 'raise_6s', 'lower_5min', 'lower_1s'], 'nsets': 3, 'el_demand': .8, 'el_fcas': .6, 'chkprice': 1, 'nregions': (1, 3),
                 'nunits': (3, 5), 'maxav': .3, 'jcap': .2, 'load': .2, 'el_sets': .3, 'fcas_types': (.7, .25, .05), 'twoservices': .15,
                 'generic': .2, 'fcaslink': .4, 'el_generic': .8, 'fcas_tight': .9},
    # interconnectors
    'inter': {'inter': 1, 'loss': .8, 'ilf': .5, 'nregions': (2, 3), 'el_demand': .7, 'parallel': 1, 'ninter': 3, 'load_factor': (.1, 1.1), 'nonconvex': 0,
              'chkprice': 1, 'nbreak': 4},
    'links': {'inter': 1, 'loss': 1, 'links': .7, 'ilf': .6, 'nregions': (2, 3), 'el_demand': .7, 'load_factor': (.1, 1.1), 'generic': .5,
              'el_generic': .5, 'chkprice': 1, 'summary': 1},
    'links_neg': {'inter': 1, 'loss': 1, 'links': 1, 'nregions': (2, 2), 'el_demand': .7, 'load_factor': (.1, 1.1), 'price': (-200, 100), 'chkprice': 1, 'summary': 1},
    # generic constraints
    'generic': {'generic': 1, 'inter': .6, 'loss': .3, 'links': .2, 'services': ['raise_6s', 'lower_reg'], 'el_generic': .5, 'el_demand': .9, 'el_fcas': .9,
                'nregions': (1, 2), 'load': .25, 'stray': .5, 'bdu': .1, 'fcaslink': .4},
    # elasticity
    'elastic': {'cap': .5, 'uigf': .3, 'ramp': .5, 'fs': .2, 'generic': .5, 'services': ['raise_reg', 'lower_6s'], 'maxav': .4, 'jcap': .3, 'ereg': .3,
                'jramp': .3, 'el': .8, 'el_demand': .9, 'el_later': .3, 'el_sets': .5, 'el_low': .25, 'load_factor': (.2, 1.3), 'fcas_tight': 1.3},
    # fast start
    'fast': {'fs': 1, 'ramp': .8, 'scada': .4, 'el_demand': 1, 'el_fast': .2, 'nregions': (1, 1), 'load': .25, 'services': ['raise_reg', 'lower_reg'],
             'fcasbid': .4, 'jramp': .4, 'el_fcas': 1, 'iv': 5, 'unfast': .3, 'load_factor': (.1, .9)},
    # bidirectional units
    'bdu': {'bdu': .6, 'ramp': .7, 'scada': .4, 'cap': .4, 'el_demand': 1, 'nregions': (1, 2), 'load_factor': (0, .8), 'nunits': (2, 3), 'price': (-50, 120)},
    'bdu_fcas': {'bdu': .7, 'ramp': .3, 'services': FULL, 'maxav': .5, 'jcap': .6, 'ereg': .6, 'jramp': .6, 'el_demand': 1, 'el_fcas': 1, 'nregions': (1, 1),
                 'nunits': (1, 2), 'load_factor': (0, .8), 'bdu_traps': .6},
    # over-constrained re-run
    'ocd': {'ocd': 1, 'chkprice': 1, 'generic': .8, 'el_generic': 1, 'services': ['raise_reg', 'lower_6s'], 'fcasreq': .7, 'el_fcas': 1, 'el_demand': .7,
            'maxav': .3, 'jcap': .3, 'inter': .5, 'ramp': .3, 'el_ramp': .7, 'gen_types': (.5, .35, .15), 'gen_tight': 1, 'fcas_tight': 1.3, 'nsets': 2,
            'nregions': (1, 2), 'load_factor': (.3, 1.1), 'fcaslink': .2},
    # time sequential chaining
    'chain': {'shape': 'sequence', 'ramp': 0, 'el_demand': 1, 'el_ramp': .3, 'load': .25, 'nregions': (1, 2), 'load_factor': (.1, 1.0), 'services': ['raise_6s'],
              'fcasbid': .4, 'el_fcas': 1},
    # redefinition
    'history': {'shape': 'history', 'tie': .25, 'el_again': .2, 'cap': .5, 'uigf': .3, 'ramp': .5, 'fs': .2, 'generic': .5, 'services': ['raise_reg', 'lower_6s'], 'maxav': .4, 'jcap': .3,
                'ereg': .3, 'jramp': .3, 'el': .6, 'el_demand': .9, 'el_fcas': .9, 'inter': .5, 'loss': .5, 'bdu': .1, 'el_sets': .4, 'el_later': .2,
                'nregions': (1, 2), 'chkprice': 1, 'summary': 1},
    # everything together
    'mixed': {'cap': .3, 'uigf': .2, 'ramp': .4, 'fs': .15, 'services': ['raise_reg', 'lower_60s'], 'maxav': .3, 'jcap': .3, 'ereg': .3, 'jramp': .3,
              'inter': .5, 'loss': .5, 'ilf': .3, 'generic': .3, 'el_demand': 1, 'el_fcas': .8, 'el_generic': .7, 'el': .3, 'load': .2, 'bdu': .15,
              'nregions': (1, 2), 'summary': 1, 'chkprice': 1},
}
