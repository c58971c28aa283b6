"""Reference definitions for the validation of regenerated plots and the comparison of images."""
import datetime as dt
import glob
import os
import subprocess
import xml.dom.minidom

import cv2
import imutils
from skimage.metrics import structural_similarity


def replace_name(old_name, postfix):
    return old_name.replace('.', '_' + postfix + '.')


def clean(params):
    for key in ('output_xml_dir', 'output_plots_dir', 'output_data_dir', 'output_scripts_dir'):
        for entry in os.scandir(params[key]):
            os.remove(entry.path)


def delete_similar_files(directory, file_name):
    for name in glob.glob(directory + file_name.split('.')[0] + '*'):
        os.remove(name)


def get_testing_period(params):
    day = lambda x: dt.datetime.strptime(str(x), '%Y-%m-%d').date()
    start = day(params['start_date']) if 'start_date' in params else (dt.datetime.now() - dt.timedelta(1)).date()
    end = day(params['end_date']) if 'end_date' in params else dt.datetime.now().date()
    if end < start:
        raise KeyError('invalid period')
    return start, end


def get_test_xml(params):
    start, end = get_testing_period(params)
    names = []
    for name in os.listdir(params['input_xml_dir']):
        path = params['input_xml_dir'] + name
        day = dt.datetime.fromtimestamp(os.path.getmtime(path)).date()
        if start <= day and day <= end and os.path.splitext(name)[1] == '.xml':
            names.append(path)
    return sorted(names)


def main(params):
    clean(params)
    for path in get_test_xml(params):
        doc = xml.dom.minidom.parse(path)

        def element(tag):
            return doc.getElementsByTagName(tag)[0].firstChild
        plot = element('plot_file').nodeValue
        original = element('plots').nodeValue + '/' + plot
        regenerated = params['output_plots_dir'] + replace_name(plot, 'py')
        for tag in ('plot_file', 'data_file', 'r_file'):
            element(tag).nodeValue = replace_name(element(tag).nodeValue, 'py')
        element('r_tmpl').nodeValue = params['mv_home'] + 'R_tmpl'
        element('r_work').nodeValue = params['mv_home'] + 'R_work'
        element('plots').nodeValue = params['output_plots_dir']
        element('user').nodeValue = params['db_user']
        element('password').nodeValue = params['db_pass']
        element('data').nodeValue = params['output_data_dir']
        element('scripts').nodeValue = params['output_scripts_dir']
        written = params['output_xml_dir'] + os.path.basename(replace_name(path, 'py'))
        with open(written, 'w') as out:
            doc.writexml(out)
        process = subprocess.Popen([params['mv_home'] + '/bin/mv_batch.sh', written], stdout=subprocess.PIPE, universal_newlines=True)
        process.communicate()
        process.wait()
        if not os.path.exists(original) and not os.path.exists(regenerated):
            os.remove(written)
            delete_similar_files(params['output_scripts_dir'], plot)
            delete_similar_files(params['output_data_dir'], plot)
            continue
        try:
            comparison = CompareImages(original, regenerated)
            if comparison.get_mssim() == 1.0:
                os.remove(regenerated)
                os.remove(written)
                delete_similar_files(params['output_scripts_dir'], plot)
                delete_similar_files(params['output_data_dir'], plot)
            else:
                comparison.save_thresh_image(params['output_plots_dir'] + replace_name(plot, 'thresh'))
        except KeyError:
            pass


class CompareImages:
    def __init__(self, first, second):
        self.image_1 = cv2.imread(first)
        if self.image_1 is None:
            raise KeyError('first')
        self.image_2 = cv2.imread(second)
        if self.image_2 is None:
            raise KeyError('second')
        found = structural_similarity(cv2.cvtColor(self.image_1, cv2.COLOR_BGR2GRAY), cv2.cvtColor(self.image_2, cv2.COLOR_BGR2GRAY), full=True)
        self.mssim = found[0]
        self.grad = (found[1] * 255).astype('uint8')
        self.thresh = None
        self.diff_in_image_1 = None
        self.diff_in_image_2 = None

    def get_mssim(self):
        return self.mssim

    def threshold(self):
        if self.thresh is None:
            self.thresh = cv2.threshold(self.grad, 0, 255, cv2.THRESH_BINARY_INV | cv2.THRESH_OTSU)[1]
        return self.thresh

    def save_thresh_image(self, path):
        cv2.imwrite(path, self.threshold())

    def show_thresh_image(self, wait=False):
        self.show('Threshold', self.threshold(), wait)

    def save_difference_image(self, path):
        cv2.imwrite(path, self.grad)

    def show_difference_image(self, wait=False):
        self.show('Difference', self.grad, wait)

    def boxed(self, image):
        """The image with a box around every region that differs."""
        contours = imutils.grab_contours(cv2.findContours(self.threshold().copy(), cv2.RETR_EXTERNAL, cv2.CHAIN_APPROX_SIMPLE))
        out = image.copy()
        for contour in contours:
            x, y, w, h = cv2.boundingRect(contour)
            cv2.rectangle(out, (x, y), (x + w, y + h), (0, 0, 255), 2)
        return out

    def first(self):
        if self.diff_in_image_1 is None:
            self.diff_in_image_1 = self.boxed(self.image_1)
        return self.diff_in_image_1

    def second(self):
        if self.diff_in_image_2 is None:
            self.diff_in_image_2 = self.boxed(self.image_2)
        return self.diff_in_image_2

    def save_difference_in_image_1(self, path):
        cv2.imwrite(path, self.first())

    def save_difference_in_image_2(self, path):
        cv2.imwrite(path, self.second())

    def show_difference_in_image_1(self, wait=False):
        self.show('Difference in image 1', self.first(), wait)

    def show_difference_in_image_2(self, wait=False):
        self.show('Difference in image 2', self.second(), wait)

    def show(self, title, image, wait):
        cv2.imshow(title, image)
        if wait:
            cv2.waitKey(0)


def regimes_file(self, times, regimes):
    kinds = {'text': '.txt', 'netcdf': '.nc'}
    if self.wr_outfile_type in kinds:
        path = os.path.join(self.wr_outfile_dir, self.wr_outfile + kinds[self.wr_outfile_type])
        if os.path.isfile(path):
            os.remove(path)
        if self.wr_outfile_type == 'text':
            open(path, 'w+')
