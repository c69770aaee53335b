PROPERTY = "C24"
NEEDS = "a configuration with vested liquidity whose cliff lies within the first day and whose periods unlock most of it before the day is over"
BREAKS = "what the periods unlock within the first day counts as still locked, so configurations with less than a tenth locked are accepted"
EDITS = [("utils/damm_v2_utils.rs", """        .min(vesting_parameters.number_of_period.into())
        .into();""", """        .min(vesting_parameters.number_of_period.saturating_sub(1).into())
        .into();""")]
DEMO = """
c = Chain()
import copy
k = copy.deepcopy(CONFIG)
k.update(pPerm=0, pLiq=30, cPerm=9, cLiq=31, pv=dict(pct=30, bps=1000, n=10, freq=100, cliff=1))
d = c.do("CreateConfig", **k)
check(not d.ok, "a configuration with 9% locked after a day was accepted")
"""
