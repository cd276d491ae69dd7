"""Synthetic NEMDE case files (what xmltodict would read from the real ones). Runs under /opt/venv."""
import os


def num(v):
    """dyadic fraction [n, d] as text"""
    x = v[0] / v[1]
    return repr(x) if x != int(x) else str(int(x))


def case_file(**k):
    """nested dict of a case file; every list is given at least the shape the real files have"""
    traders = k.get('traders') or [trader('DUMMY1', 0), trader('DUMMY2', 0)]
    periods = k.get('trader_periods') or []
    return {'NEMSPDCaseFile': {
        'NemSpdInputs': {
            'Case': k.get('case', {}),
            'TraderCollection': {'Trader': traders},
            'PeriodCollection': {'Period': {
                'TraderPeriodCollection': {'TraderPeriod': periods},
                'EnteredValuePeriodCollection': {'EnteredValuePeriod': k.get('entered', [])},
                'InterconnectorPeriodCollection': {'InterconnectorPeriod': k.get('interconnectors', [])}}},
            'GenericConstraintCollection': {'GenericConstraint': k.get('constraints', [])},
            'GenericEquationCollection': {'GenericEquation': k.get('equations', [])},
            'ConstraintScadaDataCollection': {'ConstraintScadaData': k.get('scada', [])}},
        'NemSpdOutputs': {
            'CaseSolution': k.get('case_solution', {'@Intervention': '0'}),
            'PeriodSolution': k.get('period_solution', {'@Intervention': '0'}),
            'RegionSolution': k.get('region_solution', []),
            'ConstraintSolution': k.get('constraint_solution', [])}}}


def trader(duid, mw, kind='GENERATOR', **more):
    return {'@TraderID': duid, '@TraderType': kind, 'TraderInitialConditionCollection': {'TraderInitialCondition': [
        {'@InitialConditionID': 'InitialMW', '@Value': str(mw)}, {'@InitialConditionID': 'AGCStatus', '@Value': '1'}]}}


def write(folder, name, case):
    import xmltodict
    with open(os.path.join(folder, name), 'w') as f:
        f.write(xmltodict.unparse(case))
