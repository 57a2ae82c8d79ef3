"""Which check decides which property."""
from . import p_scan, p_index, p_merge, p_pool, p_blocks, p_fault, p_cli, p_res, p_race, p_conf, p_side, p_prog, p_work
RUN = {'P01': p_scan.p01, 'P02': p_scan.p02, 'P03': p_scan.p03, 'P04': p_scan.p04, 'P05': p_scan.p05, 'P23': p_scan.p23,
       'P08': p_fault.p08, 'P09': p_fault.p09,
       'P06': p_pool.p06, 'P07': p_pool.p07,
       'P10': p_index.p10, 'P11': p_index.p11, 'P12': p_index.p12, 'P13': p_index.p13, 'P14': p_index.p14, 'P15': p_index.p15,
       'P16': p_merge.p16, 'P17': p_merge.p17, 'P18': p_merge.p18,
       'P19': p_blocks.p19, 'P20': p_blocks.p20, 'P21': p_blocks.p21, 'P22': p_cli.p22, 'P24': p_res.p24, 'P25': p_res.p25,
       'P26': p_race.p26, 'P27': p_conf.p27, 'P28': p_side.p28, 'P29': p_prog.p29,
       'P30': p_work.p30}
