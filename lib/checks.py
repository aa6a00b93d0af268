import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, gen_field, gen_point, gen_scheme, gen_hist, gen_rand, gen_mem, gen_py, gen_go, gen_ex, gen_thr
CHECKS = dict(C01=gen_field.c01, C02=gen_field.c02, C03=gen_field.c03,
              C04=gen_point.c04, C05=gen_point.c05, C06=gen_point.c06, C07=gen_point.c07, C08=gen_point.c08,
              C09=gen_scheme.c09, C10=gen_scheme.c10, C11=gen_scheme.c11,
              C12=gen_hist.c12, C13=gen_rand.c13,
              C14=gen_mem.c14, C15=gen_mem.c15,
              C16=gen_py.c16, C17=gen_py.c17, C18=gen_go.c18, C19=gen_ex.c19, C20=gen_thr.c20)
if __name__ == '__main__':
    vlib.main(CHECKS)
