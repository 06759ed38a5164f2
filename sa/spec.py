"""What the public functions of hypothesis_geometry.planar promise."""

# function: ((min parameter, max parameter, documented floor), ...)
SIZES = {
    'empty_geometries': (),
    'points': (),
    'multipoints': (('min_size', 'max_size', 1),),
    'segments': (),
    'multisegments': (('min_size', 'max_size', 2),),
    'contours': (('min_size', 'max_size', 3),),
    'convex_contours': (('min_size', 'max_size', 3),),
    'concave_contours': (('min_size', 'max_size', 4),),
    'triangular_contours': (),
    'rectangular_contours': (),
    'boxes': (),
    'star_contours': (('min_size', 'max_size', 3),),
    'multicontours': (
        ('min_size', 'max_size', 2),
        ('min_contour_size', 'max_contour_size', 3),
    ),
    'polygons': (
        ('min_size', 'max_size', 3),
        ('min_holes_size', 'max_holes_size', 0),
        ('min_hole_size', 'max_hole_size', 3),
    ),
    'multipolygons': (
        ('min_size', 'max_size', 2),
        ('min_border_size', 'max_border_size', 3),
        ('min_holes_size', 'max_holes_size', 0),
        ('min_hole_size', 'max_hole_size', 3),
    ),
    'mixes': (
        ('min_points_size', 'max_points_size', 0),
        ('min_segments_size', 'max_segments_size', 0),
        ('min_polygons_size', 'max_polygons_size', 0),
        ('min_polygon_border_size', 'max_polygon_border_size', 3),
        ('min_polygon_holes_size', 'max_polygon_holes_size', 0),
        ('min_polygon_hole_size', 'max_polygon_hole_size', 3),
    ),
}

# function: class of the drawn values ('list of' for plain lists)
RESULT = {
    'empty_geometries': 'Empty',
    'points': 'Point',
    'multipoints': 'Multipoint',
    'segments': 'Segment',
    'multisegments': 'Multisegment',
    'contours': 'Contour',
    'convex_contours': 'Contour',
    'concave_contours': 'Contour',
    'triangular_contours': 'Contour',
    'rectangular_contours': 'Contour',
    'boxes': 'Box',
    'star_contours': 'Contour',
    'multicontours': ('list', 'Contour'),
    'polygons': 'Polygon',
    'multipolygons': 'Multipolygon',
    'mixes': 'Mix',
}

FUNCTIONS = tuple(SIZES)
