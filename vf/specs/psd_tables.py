"""sieve openings of the standards, m; and the attributes known to be wrong (finding P23-sieve-attribute-units)"""
OPEN = {'ISO 3310-1': [2e-05, 2.5e-05, 3.2e-05, 3.6e-05, 3.8e-05, 4e-05, 4.5e-05, 5e-05, 5.3e-05, 5.6e-05, 6.3e-05, 7.1e-05, 7.5e-05, 8e-05, 9e-05, 0.0001, 0.000106, 0.000112, 0.000125, 0.00014, 0.00015, 0.00016, 0.00018, 0.0002, 0.000212, 0.000224, 0.00025, 0.00028, 0.0003, 0.000315, 0.000355, 0.0004, 0.000425, 0.00045, 0.0005, 0.00056, 0.0006, 0.00063, 0.00071, 0.0008, 0.00085, 0.0009, 0.001, 0.00112, 0.00118, 0.00125, 0.0014, 0.0016, 0.0017, 0.0018, 0.002, 0.00224, 0.00236, 0.0025, 0.0028, 0.00315, 0.00335, 0.00355, 0.004, 0.0045, 0.00475, 0.005, 0.0056, 0.0063, 0.0067, 0.0071, 0.008, 0.009, 0.0095, 0.01, 0.0112, 0.0125, 0.0132, 0.014, 0.016, 0.018, 0.019, 0.02, 0.0224, 0.025, 0.0265, 0.028, 0.0315, 0.0355, 0.0375, 0.04, 0.045, 0.05, 0.053, 0.056, 0.063, 0.071, 0.075, 0.08, 0.09, 0.1, 0.106, 0.112, 0.125],
 'ISO 3310-1 R20': [3.6e-05, 4e-05, 4.5e-05, 5e-05, 5.6e-05, 6.3e-05, 7.1e-05, 8e-05, 9e-05, 0.0001, 0.000112, 0.000125, 0.00014, 0.00016, 0.00018, 0.0002, 0.000224, 0.00025, 0.00028, 0.000315, 0.000355, 0.0004, 0.00045, 0.0005, 0.00056, 0.00063, 0.00071, 0.0008, 0.0009, 0.001, 0.00112, 0.00125, 0.0014, 0.0016, 0.0018, 0.002, 0.00224, 0.0025, 0.0028, 0.00315, 0.00355, 0.004, 0.0045, 0.005, 0.0056, 0.0063, 0.0071, 0.008, 0.009, 0.01, 0.0112, 0.0125, 0.014, 0.016, 0.018, 0.02, 0.0224, 0.025, 0.028, 0.0315, 0.0355, 0.04, 0.045, 0.05, 0.056, 0.063, 0.071, 0.08, 0.09, 0.1, 0.112, 0.125],
 'ISO 3310-1 R20/3': [4.5e-05, 6.3e-05, 9e-05, 0.000125, 0.00018, 0.00025, 0.000355, 0.0005, 0.00071, 0.001, 0.0014, 0.002, 0.0028, 0.004, 0.0056, 0.008, 0.0112, 0.016, 0.0224, 0.0315, 0.045, 0.063, 0.09, 0.125],
 'ISO 3310-1 R40/3': [3.8e-05, 4.5e-05, 5.3e-05, 6.3e-05, 7.5e-05, 9e-05, 0.000106, 0.000125, 0.00015, 0.00018, 0.000212, 0.00025, 0.0003, 0.000355, 0.000425, 0.0005, 0.0006, 0.00071, 0.00085, 0.001, 0.00118, 0.0014, 0.0017, 0.002, 0.00236, 0.0028, 0.00335, 0.004, 0.00475, 0.0056, 0.0067, 0.008, 0.0095, 0.0112, 0.0132, 0.016, 0.019, 0.0224, 0.0265, 0.0315, 0.0375, 0.045, 0.053, 0.063, 0.075, 0.09, 0.106, 0.125],
 'ISO 3310-1 R10': [2e-05, 2.5e-05, 3.2e-05, 3.6e-05],
 'ASTM E11': [2e-05, 2.5e-05, 3.2e-05, 3.8e-05, 4.5e-05, 5.3e-05, 6.3e-05, 7.5e-05, 9e-05, 0.000106, 0.000125, 0.00015, 0.00018, 0.000212, 0.00025, 0.0003, 0.000355, 0.000425, 0.0005, 0.0006, 0.00071, 0.00085, 0.001, 0.00118, 0.0014, 0.0017, 0.002, 0.00236, 0.0028, 0.00335, 0.004, 0.00475, 0.0056, 0.0063, 0.0067, 0.008, 0.0095, 0.0112, 0.0125, 0.0132, 0.016, 0.019, 0.0224, 0.025, 0.0265, 0.0315, 0.0375, 0.045, 0.05, 0.053, 0.063, 0.075, 0.09, 0.1, 0.106, 0.125]}
WIREBAD = {'ISO 3310-1': ['0.063:wire', '0.056:wire', '0.053:wire', '0.05:wire', '0.045:wire', '0.04:wire', '0.038:wire', '0.036:wire', '0.032:wire', '0.025:wire', '0.02:wire'],
 'ISO 3310-1 R20': ['0.063:wire', '0.056:wire', '0.05:wire', '0.045:wire', '0.04:wire', '0.036:wire'],
 'ISO 3310-1 R20/3': ['0.063:wire', '0.045:wire'],
 'ISO 3310-1 R40/3': ['0.063:wire', '0.053:wire', '0.045:wire', '0.038:wire'],
 'ISO 3310-1 R10': ['0.036:wire', '0.032:wire', '0.025:wire', '0.02:wire'],
 'ASTM E11': ['125:max', '125:inch', '106:max', '106:inch', '100:max', '100:inch', '90:max', '90:inch', '75:max', '75:inch', '63:max', '63:inch', '53:max', '53:inch', '50:max', '50:inch', '45:max', '45:inch', '37.5:max', '37.5:inch', '31.5:max', '31.5:inch', '26.5:max', '26.5:inch', '25:max', '25:inch', '22.4:max', '22.4:inch', '19:max', '19:inch', '16:max', '16:inch', '13.2:max', '13.2:inch', '12.5:max', '12.5:inch', '11.2:max', '11.2:inch', '9.5:max', '9.5:inch', '8:max', '8:inch', '6.7:max', '6.7:inch', '6.3:max', '6.3:inch', '5.6:max', '5.6:inch', '4.75:max', '4.75:inch', '4:max', '4:inch', '3.35:max', '3.35:inch', '2.8:max', '2.8:inch', '2.36:max', '2.36:inch', '2:max', '2:inch', '1.7:max', '1.7:inch', '1.4:max', '1.4:inch', '1.18:max', '1.18:inch', '1:max', '1:inch', '0.85:wire', '0.85:max', '0.85:inch', '0.71:wire', '0.71:max', '0.71:inch', '0.6:wire', '0.6:max', '0.6:inch', '0.5:wire', '0.5:max', '0.5:inch', '0.425:wire', '0.425:max', '0.425:inch', '0.355:wire', '0.355:max', '0.355:inch', '0.3:wire', '0.3:max', '0.3:inch', '0.25:wire', '0.25:max', '0.25:inch', '0.212:wire', '0.212:max', '0.212:inch', '0.18:wire', '0.18:max', '0.18:inch', '0.15:wire', '0.15:max', '0.15:inch', '0.125:wire', '0.125:max', '0.125:inch', '0.106:wire', '0.106:max', '0.106:inch', '0.09:wire', '0.09:max', '0.09:inch', '0.075:wire', '0.075:max', '0.075:inch', '0.063:wire', '0.063:max', '0.063:inch', '0.053:wire', '0.053:max', '0.053:inch', '0.045:wire', '0.045:max', '0.045:inch', '0.038:wire', '0.038:max', '0.038:inch', '0.032:wire', '0.032:max', '0.032:inch', '0.025:wire', '0.025:max', '0.025:inch', '0.02:wire', '0.02:max', '0.02:inch']}
