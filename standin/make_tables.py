#!/usr/bin/env python3
"""Regenerates the stand-in WMO code tables (the git submodules of /repo that hold the real
ones are absent offline). Only the shape and the keys matter to the checks; the descriptions are
real where they are short and well known, and synthetic ("Parameter d.c.n") elsewhere."""
import csv, os
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(here + '/def/CCT', exist_ok=True)
os.makedirs(here + '/def/GRIB2', exist_ok=True)

def w(path, header, rows):
    with open(os.path.join(here, 'def', path), 'w', newline='') as f:
        c = csv.writer(f, lineterminator='\n'); c.writerow(header); c.writerows(rows)

w('CCT/C00.csv', ['GRIB version number','BUFR version number','CREX version number','Effective date','Status'],
  [[str(i) if i else '0','','', 'Experimental' if i == 0 else f'Version {i}', 'Operational'] for i in range(0, 33)]
  + [['33-254','','','Future versions',''], ['255','','','Missing','']])
w('CCT/C11.csv', ['CREX2','GRIB2_BUFR4','OriginatingGeneratingCentre_en','Status'],
  [[f'{i:05d}', str(i), f'Centre {i}', 'Operational'] for i in range(0, 100)] + [['00100-65534','100-65534','Reserved for other centres',''],['65535','65535','Missing value','']])

H = ['Title_en','SubTitle_en','CodeFlag','Value','MeaningParameterDescription_en','Note_en','UnitComments_en','Status']
def tab(sec, num, title, groups):
    rows = []
    for sub, entries in groups:
        for code, text in entries:
            rows.append([f'Code table {sec}.{num} - {title}', sub, str(code), '', text, '', '', 'Operational'])
    w(f'GRIB2/GRIB2_CodeFlag_{sec}_{num}_CodeTable_en.csv', H, rows)
def simple(sec, num, title, names, last=None):
    n = len(names)
    ents = list(enumerate(names)) + [(f'{n}-191','Reserved'),('192-254','Reserved for local use'),('255','Missing')]
    tab(sec, num, title, [('', ents)])

simple(0,0,'Discipline',['Meteorological products','Hydrological products','Land surface products','Satellite remote sensing products','Space weather products'] + [f'Discipline {i}' for i in range(5,10)] + ['Oceanographic products'] + [f'Discipline {i}' for i in range(11,20)] + ['Health and socioeconomic impacts'])
simple(1,1,'Local tables version number',['Local tables not used'])
simple(1,2,'Significance of reference time',['Analysis','Start of forecast','Verifying time of forecast','Observation time'])
simple(1,3,'Production status',['Operational products','Operational test products','Research products','Re-analysis products','TIGGE','TIGGE test'])
simple(1,4,'Type of data',['Analysis products','Forecast products','Analysis and forecast products','Control forecast products','Perturbed forecast products','Control and perturbed forecast products','Processed satellite observations','Processed radar observations','Event probability'])
simple(3,1,'Grid definition template number',['Latitude/longitude','Rotated latitude/longitude','Stretched latitude/longitude','Stretched and rotated latitude/longitude'] + [f'Grid template {i}' for i in range(4,10)] + ['Mercator'] + [f'Grid template {i}' for i in range(11,20)] + ['Polar stereographic projection'] + [f'Grid template {i}' for i in range(21,30)] + ['Lambert conformal'] + [f'Grid template {i}' for i in range(31,40)] + ['Gaussian latitude/longitude'])
simple(4,0,'Product definition template number',['Analysis or forecast at a horizontal level or in a horizontal layer at a point in time'] + [f'Product template {i}' for i in range(1,60)])
ds = [0,1,2,3,4,10,20]
tab(4,1,'Parameter category by product discipline',[(f'Product discipline {d} - Discipline {d}', [(i, f'Category {d}.{i}') for i in range(0,21)] + [('21-191','Reserved'),('192-254','Reserved for local use'),('255','Missing')]) for d in ds])
cats = [(0,c) for c in list(range(0,8))+list(range(13,21))+[190,191]] + [(1,0),(1,1),(1,2),(2,0),(2,3),(2,4),(2,5)] + [(3,c) for c in range(7)] + [(4,c) for c in range(11)] + [(10,c) for c in [0,1,2,3,4,191]] + [(20,c) for c in range(3)]
real = {(0,0,0):'Temperature',(0,0,1):'Virtual temperature',(0,1,1):'Relative humidity',(0,1,8):'Total precipitation',(0,2,2):'u-component of wind',(0,2,3):'v-component of wind',(0,3,0):'Pressure',(0,3,1):'Pressure reduced to MSL',(0,3,5):'Geopotential height'}
tab(4,2,'Parameter number by product discipline and parameter category',[(f'Product discipline {d} - Discipline {d}, parameter category {c}: category {c}', [(i, real.get((d,c,i), f'Parameter {d}.{c}.{i}')) for i in range(0,24)] + [('24-191','Reserved'),('192-254','Reserved for local use'),('255','Missing')]) for d,c in cats])
simple(4,3,'Type of generating process',['Analysis','Initialization','Forecast','Bias corrected forecast','Ensemble forecast','Probability forecast','Forecast error','Analysis error','Observation'])
simple(4,4,'Indicator of unit of time range',['Minute','Hour','Day','Month','Year','Decade (10 years)','Normal (30 years)','Century (100 years)','','','3 hours','6 hours','12 hours','Second'])
simple(4,5,'Fixed surface types and units',['Reserved surface','Ground or water surface','Cloud base level'] + [f'Surface type {i}' for i in range(3,100)] + ['Isobaric surface','Mean sea level','Specific altitude above mean sea level','Specified height level above ground'])
simple(5,0,'Data representation template number',['Grid point data - simple packing','Matrix value at grid point - simple packing','Grid point data - complex packing','Grid point data - complex packing and spatial differencing','Grid point data - IEEE floating point data'] + [f'Template {i}' for i in range(5,40)] + ['Grid point data - JPEG 2000 code stream format','Grid point data - Portable Network Graphics (PNG)'])
