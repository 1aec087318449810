import sys
_p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _p not in sys.path:
    sys.path.append(_p)

# the value of a model may be a fraction of any length
sys.set_int_max_str_digits(0)
