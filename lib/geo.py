"""CSV input files for flee, written from a case, and read back through the public reader."""
import csv

import fenv
from flee import InputGeography
from flee.SimulationSettings import SimulationSettings

HEAD = ["#name", "region", "country", "gps_x", "gps_y", "location_type", "conflict_date", "pop/cap"]


def w(path, rows):
    with open(path, "w", newline="", encoding="utf-8") as f:
        csv.writer(f).writerows(rows)


def fmt(v):
    return "" if v is None else str(v)


def write_locations(path, locs, extra=()):
    rows = [HEAD + list(extra)]
    for d in locs:
        rows.append([d["n"], d.get("reg", "R"), d.get("c", "H"), fmt(d.get("x", 0.0)), fmt(d.get("y", 0.0)), d["t"],
                     fmt(d.get("date", 0)), fmt(d.get("pc", 0))] + [str((d.get("a") or {}).get(k, "")) for k in extra])
    w(path, rows)


def write_routes(path, locs, links, extra=()):
    rows = [["#name1", "name2", "distance", "forced_redirection"] + list(extra)]
    for l in links:
        r = [locs[l[0]]["n"], locs[l[1]]["n"], str(l[2])]
        if extra:
            a = l[3] if len(l) > 3 else {}
            r += ["0"] + [str(a.get(k, "")) for k in extra]
        rows.append(r)
    w(path, rows)


def write_closures(path, rows):
    w(path, [["#closure_type", "name1", "name2", "closure_start", "closure_end"]] + rows)


def write_conflicts(path, names, table):
    """table[day] = [intensity per name]"""
    w(path, [["#Day"] + list(names)] + [[str(i)] + [str(v) for v in row] for i, row in enumerate(table)])


def load(conflict_file="", flood_file="", eco=None, link_file="routes.csv"):
    """Read locations.csv, routes.csv and closures.csv of the working directory the way run.py does."""
    SimulationSettings.ConflictInputFile = conflict_file
    if flood_file:
        SimulationSettings.FloodLevelInputFile = flood_file
    ig = InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("locations.csv")
    ig.ReadLinksFromCSV(link_file)
    ig.ReadClosuresFromCSV("closures.csv")
    e = eco if eco is not None else fenv.flee.Ecosystem()
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    return ig, e, lm
